#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and run one property's search.

  check.py quick|thorough C01      exit 0 held / 1 violation / 2 build error / 3 simulator error
  check.py build                   only build
  check.py replay FILE [--verbose] re-execute a replay file
  check.py determinism [C01 ...]   every seed twice + explicit replay, event-log hashes must agree
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HT_REPO", "/repo")
BUILD = os.environ.get("HT_BUILD", os.path.join(HERE, "build"))
DIRS = ("lib", "parser", "client_utils", "client")
CC, CXX = "clang", "clang++"
SUTFLAGS = ["-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
            "-fstack-protector-all", "-fno-builtin-strlen", "-fno-builtin-strcmp", "-fno-builtin-strcpy",
            "-fno-omit-frame-pointer", "-fno-pie", "-w", "-DHT_STATIC_EXPORT"]
SIMFLAGS = ["-std=c++14", "-fno-threadsafe-statics", "-O2", "-g", "-fno-pie", "-fno-omit-frame-pointer", "-w", "-DHT_STATIC_EXPORT"]


PYPROPS = ("C20", "C21")        # these link the Python bindings with a real CPython into the simulator
# share of the time given to a second build: the core library compiled as C (FORCE_C_COMPILATION) with POSIX mutexes, thread keys and
# threads, and everything with its assertions on
C_SHARE = 0.25
# calls that need no GIL (or manage it themselves)
PYFREE = {"PyGILState_Ensure", "PyGILState_Release", "PyGILState_Check", "PyEval_RestoreThread", "PyEval_AcquireThread", "Py_IsInitialized",
          "Py_Initialize", "Py_InitializeEx", "PyGILState_GetThisThreadState", "PyMem_RawMalloc", "PyMem_RawFree", "PyMem_RawCalloc",
          "PyMem_RawRealloc", "Py_AddPendingCall", "_PyThreadState_UncheckedGet", "PyThreadState_GetUnchecked", "Py_AtExit", "Py_IsFinalizing",
          "_Py_IsFinalizing", "Py_GetVersion", "PyThread_get_thread_ident"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def symbolise(exe, text):
    """Turn 'backtrace: 0x..' lines into function names (best effort)."""
    out = []
    for line in text.splitlines():
        out.append(line)
        if line.startswith("backtrace:"):
            r = sh(["addr2line", "-f", "-C", "-i", "-e", exe] + line.split()[1:])
            ls = r.stdout.splitlines()
            for fn, loc in zip(ls[0::2], ls[1::2]):
                if "/sim/rt" in loc or "/sim/drv" in loc or fn.startswith(("__tsan", "__wrap", "??")):
                    continue
                out.append("    %s  %s" % (fn[:80], loc.replace(REPO + "/", "")))
    return "\n".join(out) + ("\n" if out else "")


class BuildError(Exception):
    pass


def configure(opts=(), cfg="cfg"):
    """CMake decides which sources belong to the product and with which definitions."""
    cfg = os.path.join(BUILD, cfg)
    shutil.rmtree(cfg, ignore_errors=True)
    os.makedirs(cfg)
    r = sh(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DENABLE_TESTS=OFF", "-DENABLE_BENCHMARKS=OFF",
            "-DENABLE_EXAMPLES=OFF", "-DENABLE_PYTHON_BINDINGS=OFF", "-DENABLE_DOC=OFF", "-DCMAKE_BUILD_TYPE=Release",
            "-DHT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED=ON", "-DHT_PLATFORM_FEATURE_ALLOC_HOOKS_SOURCE=" + REPO + "/lib/platform/linux/alloc_hooks.c"] + list(opts))
    if r.returncode:
        raise BuildError("cmake failed\n" + r.stdout[-3000:])
    units, incs = [], []
    for e in json.load(open(os.path.join(cfg, "compile_commands.json"))):
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        rel = os.path.relpath(f, REPO)
        if not rel.startswith(tuple(d + "/" for d in DIRS)):
            continue
        a = shlex.split(e["command"]) if "command" in e else e["arguments"]
        fl, i = [], 0
        while i < len(a):
            if a[i] in ("-I", "-isystem", "-D"):
                fl += [a[i], a[i + 1]]; i += 1
            elif a[i].startswith(("-I", "-D")) and a[i] not in ("-DNDEBUG",):
                fl.append(a[i])
            i += 1
        fl = [x for x in fl if x != "-DHT_STATIC_EXPORT"]
        if any(u[0] == f for u in units):
            continue
        units.append((f, fl, f.endswith(".c") or "-x c" in " ".join(a)))
        for x in fl:
            if x.startswith("-I") and x not in incs:
                incs.append(x)
    return cfg, units, incs


def tree_hash(cfg):
    h = hashlib.sha256()
    for d in DIRS:
        for root, _, files in sorted(os.walk(os.path.join(REPO, d))):
            for n in sorted(files):
                if n.endswith((".h", ".hpp", ".inl", ".in")):
                    p = os.path.join(root, n)
                    h.update(p.encode() + b"\0" + read(p))
    for p in sorted(glob.glob(cfg + "/lib/include/**/*.h", recursive=True)):
        if not p.endswith(("/hawktracer.h",)) or "/hawktracer/" in p:
            h.update(p.encode() + b"\0" + read(p))
    return h.digest()


def py_config():
    import sysconfig
    r = sh(["/usr/bin/python3", "-c", "import sysconfig as s,json;print(json.dumps([s.get_paths()['include'],s.get_paths()['platinclude'],s.get_paths()['stdlib'],s.get_config_var('LIBDIR'),s.get_config_var('LDLIBRARY')]))"])
    inc, pinc, std, libdir, lib = json.loads(r.stdout)
    so = os.path.join(libdir, lib)
    if not os.path.exists(so):
        so = sh(["sh", "-c", "ldconfig -p | awk '/%s/{print $NF; exit}'" % lib.replace(".", "\\.")]).stdout.strip()
    if not os.path.exists(so) or not os.path.exists(inc + "/Python.h"):
        raise BuildError("no embeddable CPython (%s, %s)" % (lib, inc))
    return ["-I" + inc, "-I" + pinc], std, so


def py_trampolines(objs, so, obj):
    """Every C-API function the bindings call goes through a check that the calling thread holds the GIL."""
    funcs = {l.split()[-1].split("@")[0] for l in sh(["nm", "-D", "--defined-only", so]).stdout.splitlines() if l.split()[-2:-1] and l.split()[-2] in "TWi"}
    used = set()
    for o in objs:
        used |= {l.split()[-1] for l in sh(["nm", "-u", o]).stdout.splitlines() if l.strip()}
    names = sorted(n for n in used & funcs if n not in PYFREE)
    asm = ".text\n"
    for i, n in enumerate(names):
        asm += (".globl simtr_%s\n.type simtr_%s,@function\nsimtr_%s:\n push %%rbp\n mov %%rsp,%%rbp\n" % (n, n, n)
                + "".join(" push %%%s\n" % r for r in ("rax", "rdi", "rsi", "rdx", "rcx", "r8", "r9", "r10"))
                + " sub $128,%rsp\n" + "".join(" movups %%xmm%d,%d(%%rsp)\n" % (k, 16 * k) for k in range(8))
                + " lea .Ln%d(%%rip),%%rdi\n call sim_py_gil_check\n" % i
                + "".join(" movups %d(%%rsp),%%xmm%d\n" % (16 * k, k) for k in range(8)) + " add $128,%rsp\n"
                + "".join(" pop %%%s\n" % r for r in reversed(("rax", "rdi", "rsi", "rdx", "rcx", "r8", "r9", "r10")))
                + " pop %%rbp\n jmp %s@PLT\n.section .rodata\n.Ln%d: .string \"%s\"\n.text\n" % (n, i, n))
    asm += '.section .note.GNU-stack,"",@progbits\n'
    key = hashlib.sha256((asm + "\n".join(objs)).encode()).hexdigest()[:24]
    base = os.path.join(obj, "pytramp." + key)
    out = [base + ".o"]
    if not os.path.exists(base + ".o"):
        with open(base + ".s", "w") as f:
            f.write(asm)
        r = sh([CC, "-c", base + ".s", "-o", base + ".o.tmp"])
        if r.returncode:
            raise BuildError("trampolines\n" + r.stdout[-2000:])
        os.rename(base + ".o.tmp", base + ".o")
        os.unlink(base + ".s")
    sym = ["--redefine-sym=%s=simtr_%s" % (n, n) for n in names]
    for o in objs:
        t = o[:-2] + "." + key[:8] + ".tr.o"
        if not os.path.exists(t):
            r = sh(["objcopy"] + sym + [o, t + ".tmp"])
            if r.returncode:
                raise BuildError("objcopy\n" + r.stdout[-2000:])
            os.rename(t + ".tmp", t)
        else:
            os.utime(t)
        out.append(t)
    os.utime(out[0])
    return out


def build(quiet=True, py=False, posix=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cfg, units, incs = configure()
    if posix:
        as_c = {u[0] for u in configure(["-DFORCE_C_COMPILATION=ON"], "cfg_c")[1] if u[2]}
        units = [(f, fl, f in as_c) for f, fl, _ in units]
    th = tree_hash(cfg)
    simh = hashlib.sha256(b"".join(p.encode() + read(p) for p in sorted(glob.glob(HERE + "/sim/*.h")))).digest()
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    jobs = []
    for f, fl, c in units:
        cmd = [CC if c else CXX, "-std=gnu99" if c else "-std=gnu++11"] + (["-x", "c"] if c and not f.endswith(".c") else []) + SUTFLAGS + fl
        if posix:
            cmd += ["-UNDEBUG"]
        if posix and os.path.relpath(f, REPO) == "lib/tcp_server.cpp":
            cmd += ["-DHT_THREAD_IMPL_POSIX"]
        if not c:
            cmd += ["-include", "stdint.h"]
        if f.endswith("/alloc_hooks.c"):    # under other names, on top of a simulated C library: the simulator needs the real ones
            cmd += ["-D%s%s=hk_%s%s" % (p, n, p.lstrip("_"), n) for p in ("", "__libc_") for n in ("malloc", "calloc", "realloc", "free")]
        if os.path.relpath(f, REPO) == "client/main.cpp":
            cmd += ["-Dmain=htclient_main"]
        jobs.append((0, f, cmd, th))
    for f in sorted(glob.glob(HERE + "/sim/*.c*")):
        b = os.path.basename(f)
        if b.startswith("user_"):
            c = f.endswith(".c")
            cmd = [CC if c else CXX, "-std=gnu99" if c else "-std=gnu++98" if b.endswith("98.cpp") else "-std=gnu++11"] + SUTFLAGS + incs + ["-I" + HERE + "/sim"] + ([] if c else ["-include", "stdint.h"])
        else:
            cmd = [CXX] + SIMFLAGS + incs + ["-I" + HERE + "/sim"]
            if b == "io.cpp":
                cmd.append("-D__NO_INLINE__")
        jobs.append((0 if b.startswith("user_") else 1, f, cmd, th + simh if b not in ("rt.cpp", "io.cpp", "drv.cpp") else simh))
    if py:
        pyinc, pystd, pyso = py_config()
        bind = sorted(glob.glob(REPO + "/bindings/python3/*.c") + glob.glob(REPO + "/bindings/python3/*.cpp"))
        units = units + [(f, [], False) for f in bind]
        for p in sorted(glob.glob(REPO + "/bindings/python3/*.h*") + glob.glob(HERE + "/sim/py/*.h")):
            th = hashlib.sha256(th + p.encode() + read(p)).digest()
        for f in bind:
            c = f.endswith(".c")
            jobs.append((2, f, [CC if c else CXX, "-std=gnu99" if c else "-std=gnu++11"] + SUTFLAGS + incs + pyinc + ["-I" + os.path.dirname(f)] + ([] if c else ["-include", "stdint.h"]), th))
        for f in sorted(glob.glob(HERE + "/sim/py/*.cpp")):
            jobs.append((1, f, [CXX] + SIMFLAGS + incs + pyinc + ["-I" + HERE + "/sim", '-DPY_STDLIB="%s"' % pystd], th + simh))

    def one(j):
        _, f, cmd, dep = j
        key = hashlib.sha256(dep + "\0".join(cmd).encode() + f.encode() + read(f)).hexdigest()[:24]
        o = os.path.join(obj, os.path.basename(f) + "." + key + ".o")
        if not os.path.exists(o):
            r = sh(cmd + ["-c", f, "-o", o + ".tmp"])
            if r.returncode:
                raise BuildError("compiling %s failed\n%s" % (f, r.stdout[-4000:]))
            os.rename(o + ".tmp", o)
        else:
            os.utime(o)
        return o
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(one, jobs))
    pyobjs = [o for j, o in zip(jobs, objs) if j[0] == 2]
    objs = [o for j, o in sorted(zip(jobs, objs), key=lambda x: x[0][0]) if j[0] < 2]
    libs = ["-ldl", "-lpthread"]
    if py:
        objs += py_trampolines(pyobjs, pyso, obj)
        libs = [pyso] + libs
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, ("simpy." if py else "simdrv-c." if posix else "simdrv.") + key)
    if not os.path.exists(exe):
        r = sh([CXX, "-no-pie", "-g", "-rdynamic", "-Wl,--wrap=strlen,--wrap=strcmp,--wrap=strcpy", "-o", exe + ".tmp"] + objs + libs)
        if r.returncode:
            raise BuildError("link failed\n" + r.stdout[-6000:])
        os.rename(exe + ".tmp", exe)
    os.utime(exe)
    for pat in ("/simdrv.*", "/simpy.*", "/simdrv-c.*"):
        for p in sorted(glob.glob(BUILD + pat), key=os.path.getmtime)[:-6]:
            os.unlink(p)
    keep = set(objs) | set(pyobjs)
    olds = sorted((p for p in glob.glob(obj + "/*.o") if p not in keep), key=os.path.getmtime)
    for p in olds[:-600]:
        os.unlink(p)
    lock.close()
    return exe, [os.path.relpath(u[0], REPO) for u in units]


def known_findings(prop):
    """known_findings.txt: 'finding: property=<id> scenario=<s> class=<c> detail=<fragment> :: text' (suppress exactly that)."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            head, _, text = line.partition(" :: ")
            kv = {}
            for k in ("scenario", "class", "detail"):
                i = head.find(" %s=" % k)
                if i < 0:
                    continue
                v = head[i + len(k) + 2:]
                if k != "detail":
                    v = v.split(" ")[0]
                kv[k] = v
            res.append((kv["scenario"], kv["class"], kv.get("detail", ""), text))
    return res


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    t0 = time.time()
    def wants_py():
        if a[0] in ("quick", "thorough"):
            return a[1] in PYPROPS
        if a[0] == "replay":
            return any(l.split()[:2] == ["property", p] for l in open(a[1], errors="replace") for p in PYPROPS)
        return "py" in a[1:] or a[0] == "determinism" and bool(set(a[1:]) & set(PYPROPS))
    def wants_c():
        if a[0] == "replay":
            return any(l.split() == ["build", "c"] for l in open(a[1], errors="replace"))
        return os.environ.get("SIM_BUILD") == "c"
    try:
        exe, units = build(py=wants_py(), posix=wants_c())
    except BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    tb = time.time() - t0
    if a[0] == "build":
        print("built %s in %.1f s from %d product sources" % (exe, tb, len(units)))
        return 0
    if a[0] == "replay":
        r = subprocess.run([exe, "replay"] + a[1:], stdout=subprocess.PIPE, universal_newlines=True, errors="replace")
        sys.stdout.write(symbolise(exe, r.stdout))
        return r.returncode
    conf = json.load(open(os.path.join(HERE, "budget.json")))
    if a[0] == "determinism":
        rc = 0
        for p in a[1:] or sorted(conf["properties"]):
            print(p, flush=True)
            if p in PYPROPS and not wants_py():
                exe, units = build(py=True)
            rc |= subprocess.call([exe, "determinism", "--prop", p, "--count", str(conf.get("determinism", 60)), "--seed", os.environ.get("VERIF_SEED", "1")])
        return rc
    tier, prop = a[0], a[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    b = dict(conf["default"][tier]); b.update(conf["properties"].get(prop, {}).get(tier, {}))
    kf = known_findings(prop)
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    rep_dir = os.path.join(HERE, "replays"); os.makedirs(rep_dir, exist_ok=True)
    rep = os.path.join(rep_dir, "%s-%s-seed%d.replay" % (prop, tier, seed))
    if os.path.exists(rep):
        os.unlink(rep)
    jobs = int(os.environ.get("HT_JOBS", os.cpu_count() or 8))

    def search(exe, build_name, runs, secs):
        fd, out = tempfile.mkstemp(suffix=".json", dir=BUILD); os.close(fd)
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--count", str(runs), "--time", str(secs),
               "--jobs", str(jobs), "--out", out, "--replay-out", rep, "--min-time", str(b.get("min_time", 30))]
        for s, c, d, _ in kf:
            cmd += ["--known", "%s|%s|%s" % (s, c, d)]
        env = dict(os.environ)
        env.pop("SIM_BUILD", None)
        if build_name:
            env["SIM_BUILD"] = build_name
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", env=env)
        sys.stdout.write(symbolise(exe, r.stdout))
        try:
            return r.returncode, json.load(open(out))
        except Exception as e:
            print("no statistics: %s" % e)
            return (3 if r.returncode in (0, 1) else r.returncode), None
        finally:
            os.unlink(out)

    code, st = search(exe, None, b["runs"], b["time"])
    if st is None:
        return code
    st_c = None
    if code == 0 and prop not in PYPROPS:
        t1 = time.time()
        try:
            exe_c, _ = build(posix=True)
        except BuildError as e:
            print("BUILD ERROR (core library as C): %s" % e)
            return 2
        tb += time.time() - t1
        code, st_c = search(exe_c, "c", b["runs"], b["time"] * C_SHARE)
        if st_c is None:
            return code
        if code == 1:
            st["violation"] = st_c["violation"]
        st["known"] = [x + y for x, y in zip(st["known"], st_c["known"])]
    dt = time.time() - t0
    meta = conf["properties"].get(prop, {})
    rph = st["runs"] / max(st["search_s"], 1e-6) * 3600
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": "one evaluation = one simulated run (one seed = one exactly repeatable execution: workload, schedule and fault sequence); non-trivial = the run reached the state the property speaks about (%s); distinct = different hash of the complete event log (every context switch with its step, every fault, every observation folded in)" % meta.get("nontrivial", "at least one event was produced and judged by the oracle"),
            "samples": st["samples"],
            "nontrivial_runs": st["nontrivial"],
            "runs_per_hour": int(rph), "seeds_per_hour": int(rph),
            "simulated_seconds": st["simulated_seconds"],
            "simulated_steps": st["steps"],
            "irreproducible_runs": st.get("irreproducible", 0),
            "faults_injected": st["faults"], "runs_with_faults": st["runs_with_faults"],
            "distinct_executions": st["distinct_executions"],
            "distinct_interleavings": st["distinct_interleavings"],
            "interleaving_measure": "distinct hashes of the sequence of context switches (from thread, to thread, instruction step of the switch)",
            "context_switches": st["switches"], "preemptions": st["preemptions"], "distinct_preemption_sites": st["preempted_sites"],
            "max_threads": st["max_threads"], "operations": st["operations"],
            "probes": st["probes"], "scenarios": st["scenarios"],
            "real_components": units + (["CPython %s (libpython)" % sys.version.split()[0]] if prop in PYPROPS else []),
            "stub_components": (["libpython is real but not instrumented: inside it threads switch only at its synchronisation calls"] if prop in PYPROPS else []) + ["pthread mutex/cond/create/join/once/TLS destructors (seeded scheduler)", "clock_gettime/nanosleep (simulated clock)",
                                "malloc/free (checked arena)", "files under /sim and /proc (simulated disk)", "sockets (simulated TCP)"],
            "build_s": round(tb, 1),
            "second_build": None if st_c is None else {
                "what": "core library compiled as C with POSIX mutexes, thread keys and threads; all product code with assertions enabled",
                "evaluations": st_c["runs"], "distinct_nontrivial": st_c["distinct_nontrivial"], "nontrivial_runs": st_c["nontrivial"],
                "distinct_interleavings": st_c["distinct_interleavings"], "faults_injected": st_c["faults"],
                "simulated_seconds": st_c["simulated_seconds"], "probes": st_c["probes"]},
        },
        "wall_s": round(dt, 2),
        "assumptions": meta.get("assumptions", []) + [
            "threads interleave at instrumented memory accesses and synchronisation calls under sequential consistency; compiler/CPU reordering is not simulated",
            "the search samples schedules and faults; absence of a violation is evidence, not proof"],
        "violations": [] if code != 1 else [st["violation"]],
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    for (s, c, d, text), n in zip(kf, st["known"]):
        print("KNOWN-FINDING: property=%s %s (hit in %d of %d runs)" % (prop, text, n, st["runs"]))
    print("%s %s: %d runs (%d non-trivial, %d distinct), %d interleavings, faults %s, %.1f s" %
          (prop, tier, st["runs"], st["nontrivial"], st["distinct_nontrivial"], st["distinct_interleavings"], sum(st["faults"].values()), dt))
    if st_c:
        print("%s %s, second build: %d runs (%d non-trivial)" % (prop, tier, st_c["runs"], st_c["nontrivial"]))
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    return code


sys.exit(main())
