// C20: recording from Python programs (hawktracer.core), with the real interpreter.
#include "pyenv.h"
#include "../model.h"
#include <hawktracer.h>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <set>
using namespace sim;
namespace {
PySrc src(R"(
class SimError(Exception): pass
ERRORS = (SimError, SystemExit, KeyboardInterrupt, StopIteration, GeneratorExit, MemoryError, ValueError)
class Named:
    def __init__(self, name): self.__name__ = name
    def __call__(self, it, tok, *, raises=False): return c20_body(self.idx, it, tok, raises)
class Nameless:
    def __call__(self, it, tok, *, raises=False): return c20_body(self.idx, it, tok, raises)
class BadName:
    @property
    def __name__(self): raise ValueError("no name today")
    def __call__(self, it, tok, *, raises=False): return c20_body(self.idx, it, tok, raises)
def c20_expect(exc, f, *a):
    try: f(*a)
    except exc: return
    simh.fail("no-exception", "%s%r did not raise" % (f.__name__, a))
def c20_setup(expect_on, path, bufsize, bad_path, host):
    global core
    import core
    if not expect_on: c20_expect(Exception, core.register_file_listener, path)
    else:
        def probe(): pass
        if core.trace(probe) is probe: simh.fail("env-ignored", "HT_PYTHON_TRACE_ENABLED is set but @trace has no effect")
    if host: return
    core.init(); core.init()
    if bad_path:
        simh.c20_open_fails(1); c20_expect(Exception, core.register_file_listener, bad_path, bufsize); simh.c20_open_fails(0)
    if bufsize: core.register_file_listener(path, bufsize)
    else: core.register_file_listener(path)
    simh.c20_state(1 if expect_on else 0, 0)
def c20_body(i, it, tok, raises):
    simh.c20_enter(i)
    c20_run(it)
    simh.c20_leave(i)
    if raises: raise ERRORS[(i + len(F)) % 7](tok)
    return tok
def c20_make(kind, name, i, deco):
    if kind == 0:
        def f(it, tok, *, raises=False): return c20_body(i, it, tok, raises)
        f.__name__ = name
    elif kind == 1: f = Named(name); f.idx = i
    elif kind == 2: f = Nameless(); f.idx = i
    elif kind == 3: f = functools.partial(c20_body, i, raises=False)
    elif kind == 4: f = BadName(); f.idx = i
    elif kind == 5: f = Named(5); f.idx = i
    elif kind == 6: f = Named([]); f.idx = i
    elif kind == 8: F.append(name); return
    else: f = Named("s\ud800x"); f.idx = i
    if deco: core.enable_trace_decorator()
    else: core.disable_trace_decorator()
    g = core.trace(f)
    if not deco and g is not f: simh.fail("decorator", "@trace changed a function although the decorator is disabled")
    if deco and g is f: simh.fail("decorator", "@trace had no effect although the decorator is enabled")
    F.append(g)
F = []
def c20_brief(i, name):
    # a function which exists for one call only: the next one may well get its memory
    def f(it, tok, *, raises=False): return c20_body(i, it, tok, raises)
    f.__name__ = "".join(list(name)); core.enable_trace_decorator()      # a string of its own
    g = core.trace(f)
    if g is f: simh.fail("decorator", "@trace had no effect although the decorator is enabled")
    return g
def c20_call(i, it, how, raises):
    tok = [i]
    simh.c20_before(i)
    try:
        if type(F[i]) is str: simh.probe("function made for one call"); r = c20_brief(i, F[i])(it, tok, raises=raises)
        elif how == 0: r = F[i](it, tok, raises=raises) if raises else F[i](it, tok)
        elif how == 1: r = F[i](it, tok, raises=raises)
        elif how == 2: r = F[i](it, tok=tok)
        else: r = F[i](*(it, tok), **{"raises": raises})
        if r is not tok: simh.fail("wrong-result", "traced call %d returned %r instead of what the function returned" % (i, r))
        if raises and how != 2: simh.fail("lost-exception", "the exception of traced call %d was lost" % i)
    except ERRORS as e:
        if not raises or type(e) is not ERRORS[(i + len(F)) % 7] or not e.args or e.args[0] is not tok: simh.fail("wrong-exception", "traced call %d raised %r" % (i, e))
        e = None
    except BaseException as e:
        simh.fail("wrong-exception", "traced call %d raised %r" % (i, e))
    r = None
    simh.c20_after(i)
    n = sys.getrefcount(tok)
    if n != 2: simh.fail("reference-leak", "an argument of traced call %d has %d references afterwards, 1 expected" % (i, n - 1))
def c20_toggle(on):
    simh.c20_state(1 if on else 0, 1)
    (core.enable_tracing if on else core.disable_tracing)()
    simh.c20_state(1 if on else 0, 0)
def c20_run(it):
    for op in it:
        k = op[0]
        if k == 'r': return
        elif k == 'c': c20_call(op[1], it, op[2], op[3])
        elif k == 'y': simh.y()
        elif k == 'n': simh.nap(op[1])
        elif k == 'a': simh.adv(op[1])
        elif k == 't': c20_toggle(op[1])
        elif k == 'x': time.sleep(0)
        elif k == 'b': 
            for j in range(op[1]): pass
def c20_program(ops):
    c20_run(iter(ops))
def c20_threads(progs, sub):
    ts = [threading.Thread(target=c20_program, args=(p,)) for p in progs]
    for t in ts: t.start()
    c20_program(sub)
    for t in ts: t.join()
def c20_refs(i):
    g = F[i]; f = getattr(g, "__self__", g); name = getattr(f, "__name__", None) if not isinstance(f, (Nameless, BadName)) else None
    return [sys.getrefcount(x) for x in (g, f, name, core, F)]
def c20_bye(i, where, drop):
    # a traced function called by a destructor, at some point of the interpreter's shutdown (its globals may be gone by then)
    state, before, enter, leave, after, fail, probe = simh.c20_state, simh.c20_before, simh.c20_enter, simh.c20_leave, simh.c20_after, simh.fail, simh.probe
    def f(tok): enter(i); leave(i); return tok
    f.__name__ = "bye"; core.enable_trace_decorator()
    g = core.trace(f)
    class Bye:
        def __del__(self):
            tok = ["bye"]; state(1, 1); before(i)
            try: r = g(tok)
            except BaseException as e: fail("wrong-exception", "a traced function called while the interpreter shuts down raised %r" % (e,))
            if r is not tok: fail("wrong-result", "a traced function called while the interpreter shuts down returned %r" % (r,))
            after(i); probe("traced call during the interpreter's shutdown")
    b = Bye()
    if where == 1: globals()["bye"] = b
    elif where == 2: import builtins; builtins.bye = b
    elif where == 3: sys.bye = b
    elif where == 4: core.bye = b
    elif where == 5: threading.bye = b
    elif where == 6: b.me = b
    else: import atexit; atexit.register(b.__class__.__del__, b)
    if drop: del globals()["core"]             # only the interpreter itself still knows the module
def c20_crowd(first, n):
    for i in range(first, first + n): c20_call(i, iter(()), i & 3, False)
    for i in range(first, first + n, 7): c20_call(i, iter(()), i & 3, False)
    simh.probe("hundreds of short-lived functions")
def c20_leak(i, n):
    for k in range(3): c20_call(i, iter(()), 0, False)
    a = c20_refs(i)
    for k in range(n): c20_call(i, iter(()), k & 3, False)
    b = c20_refs(i)
    if a != b: simh.fail("reference-leak", "reference counts of wrapper, function, name, module: %r before %d traced calls, %r after" % (a, n, b))
)");
struct Call { int fn = 0; uint64_t tb = 0, te = 0, tl = 0, ta = 0; unsigned vb = 0, ve = 0; bool state = false, entered = false, left = false; };
struct Lane { uint32_t tid = 0; std::vector<Call> st, done; };
struct Fn { int kind; std::string name; bool deco; };
std::map<int, Lane>* lanes; std::vector<Fn>* fns; unsigned ver; bool on; int toggling;
Lane& lane() { Lane& l = (*lanes)[self_id()]; if (!l.tid) { Sut s; l.tid = ht_thread_get_current_thread_id(); } return l; }
#define FN(name) PyObject* name(PyObject*, PyObject* a)
FN(f_before) { Har h; Lane& l = lane(); Call c; c.fn = (int)PyLong_AsLong(a); c.tb = now(); c.vb = ver; c.state = on; if (toggling) c.vb = ~0u; l.st.push_back(c); Py_RETURN_NONE; }
FN(f_enter) { Har h; Lane& l = lane(); Call& c = l.st.back(); if (c.fn != (int)PyLong_AsLong(a)) fail("wrong-function", "call %d executed function %ld", c.fn, PyLong_AsLong(a)); c.te = now(); c.ve = ver; c.entered = true; Py_RETURN_NONE; }
FN(f_leave) { Har h; lane().st.back().tl = now(); lane().st.back().left = true; Py_RETURN_NONE; }
FN(f_after) { Har h; Lane& l = lane(); Call c = l.st.back(); l.st.pop_back(); c.ta = now(); if (!c.entered || !c.left) fail("not-called", "traced function %d was not executed", c.fn); l.done.push_back(c); Py_RETURN_NONE; }
FN(f_state) { int s, b; if (!PyArg_ParseTuple(a, "ii", &s, &b)) return nullptr; Har h; ver++; toggling += b ? 1 : toggling ? -1 : 0; on = s; Py_RETURN_NONE; }
FN(f_open) { Har h; enable_fault(F_OPEN_FAIL, PyLong_AsLong(a) ? 1 : 0, 1); Py_RETURN_NONE; }
FN(f_blocks) { uint64_t n = heap_live_sut_blocks(); return PyLong_FromUnsignedLongLong(n); }
PyFns fnreg([](std::vector<PyMethodDef>& v) {
    v.push_back({"c20_before", f_before, METH_O, ""}); v.push_back({"c20_enter", f_enter, METH_O, ""}); v.push_back({"c20_leave", f_leave, METH_O, ""});
    v.push_back({"c20_after", f_after, METH_O, ""}); v.push_back({"c20_state", f_state, METH_VARARGS, ""}); v.push_back({"c20_open_fails", f_open, METH_O, ""}); v.push_back({"blocks", f_blocks, METH_NOARGS, ""});
});
// A program: a flat list of operations; 'c' opens a call that the next unmatched 'r' ends.
PyObject* program(unsigned n, bool toggles) {
    PyObject* l = PyList_New(0); unsigned depth = 0;
    for (unsigned i = 0; i < n; i++) {
        Rng r(1); if (!op_keep(&r)) continue; PyObject* o = nullptr;
        switch (r.below(12)) {
        case 0: case 1: case 2: case 3: if (depth < 12) { o = Py_BuildValue("(siiO)", "c", (int)r.below(fns->size()), (int)r.below(4), Py_False); depth++; } break;
        case 4: if (depth < 12) { o = Py_BuildValue("(siiO)", "c", (int)r.below(fns->size()), (int)(r.below(2) ? 1 : 3), Py_True); depth++; } break;
        case 5: case 6: case 7: if (depth) { o = Py_BuildValue("(s)", "r"); depth--; } break;
        case 8: o = r.chance(1, 2) ? Py_BuildValue("(s)", "y") : Py_BuildValue("(s)", "x"); break;
        case 9: o = Py_BuildValue("(sK)", r.chance(1, 2) ? "n" : "a", (unsigned long long)r.below(r.chance(1, 4) ? 20000000 : 3000)); break;
        case 10: if (toggles) o = Py_BuildValue("(sO)", "t", r.chance(2, 3) ? Py_True : Py_False); break;
        default: o = Py_BuildValue("(si)", "b", (int)r.below(200)); break;
        }
        if (o) { PyList_Append(l, o); Py_DECREF(o); }
    }
    return l;
}
const char* const PATH = "/sim/py.htdump";
void python_program() {
    lanes = new std::map<int, Lane>; fns = new std::vector<Fn>; ver = 0; on = false; toggling = 0;
    unsigned nh = (unsigned)knob("threads", 0, 3), np = (unsigned)knob("python_threads", 0, 2), ops = (unsigned)knob("ops", 3, 60), nf = (unsigned)knob("functions", 1, 6);
    bool host = knob("host_owns_hawktracer", 0, 3) == 3; int env = (int)knob("env", 0, host ? 2 : 4); bool env_on = env >= 3; bool odd = knob("odd_callables", 0, 3) == 0, brief = knob("brief_functions", 0, 2) == 2; auto named = [](const Fn& f) { return f.kind < 2 || f.kind == 8; };
    size_t fb = pick("file_buffer", {0, 64, 256, 4096, 100000}); set_stdio_buffer(pick("stdio_buf", {0, 64, 512, 4096})); set_step_cap(3000000); set_starvation_bound(3000);
    set_clock_step(pick("clock_step", {1, 1, 100, 20000, 3000000})); if (knob("spurious", 0, 2) == 0) enable_fault(F_SPURIOUS_WAKE, 1, 10);
    static const char* const envs[] = {nullptr, "0", "0yes", "1", "true"}; if (envs[env]) setenv("HT_PYTHON_TRACE_ENABLED", envs[env], 1); else unsetenv("HT_PYTHON_TRACE_ENABLED");
    py_setup(pick("switch_interval_us", {1, 50, 5000}));
    unsigned sub_ops = 0; std::vector<int> th; HT_FileDumpListener* hl = nullptr; HT_Timeline* htl = nullptr;
    // the program embedding the interpreter has initialised the library, owns the listener and traces its own code on the same thread
    auto host_call = [&](const char* l) { Sut s; ht_feature_callstack_start_string(htl, l); ht_feature_callstack_stop(htl); };
    if (host) {
        Sut s; ht_init(0, nullptr); htl = ht_global_timeline_get(); HT_ErrorCode e = HT_ERR_UNKNOWN; hl = ht_file_dump_listener_register(htl, PATH, fb, &e);
        if (!hl) { Har h; fail("register", "listener of the host: error %d", (int)e); }
        host_call("host, before"); probe("the host owns the library");
    }
    {
        Gil g; Sut s; static const char* const names[] = {"f", "handler", "f", "f\xc3\xbcr_\xe6\xbc\xa2", "a_rather_long_function_name_that_is_longer_than_the_smallest_timeline_buffer_and_so_needs_its_own_packet", "", "x.<locals>.y"};
        Py_XDECREF(py_call("c20_setup", Py_BuildValue("(isKzi)", env_on, PATH, (unsigned long long)fb, knob("bad_path", 0, 3) == 0 ? "/sim/no/such/dir/x" : (const char*)nullptr, (int)host)));
        for (unsigned i = 0; i < nf; i++) {
            Fn f; f.kind = odd && knob("odd", 0, 1) ? (int)((seed() >> (i * 3)) % 8) : (int)((seed() >> i) & 1); f.name = names[(seed() >> (i * 5)) % 7]; f.deco = (seed() >> (i * 2 + 20)) % 5 != 0; if (brief && (seed() >> (i + 40)) & 1) { f.kind = 8; f.deco = true; }
            { Har h; fns->push_back(f); }
            Py_XDECREF(py_call("c20_make", Py_BuildValue("(isiO)", f.kind, f.name.c_str(), (int)i, f.deco ? Py_True : Py_False)));
        }
        if (!env_on && knob("enable_first", 0, 3)) { PyObject* r = py_call("c20_toggle", Py_BuildValue("(O)", Py_True)); Py_XDECREF(r); }
        bool tog = knob("toggles", 0, 1);
        std::vector<PyObject*> progs; for (unsigned i = 0; i < nh + np + 1; i++) progs.push_back(program(ops, tog && i == nh + np));
        PyObject* lp = PyList_New(0); for (unsigned i = 0; i < np; i++) { PyList_Append(lp, progs[nh + i]); Py_DECREF(progs[nh + i]); }
        for (unsigned i = 0; i < nh; i++) { PyObject* p = progs[i]; Har h; th.push_back(spawn("host thread", [p] { Gil g; Sut s; PyObject* r = py_call("c20_program", Py_BuildValue("(O)", p)); Py_XDECREF(r); Py_DECREF(p); })); }
        Py_XDECREF(py_call("c20_threads", Py_BuildValue("(OO)", lp, progs[nh + np]))); Py_DECREF(lp); Py_DECREF(progs[nh + np]); (void)sub_ops;
    }
    for (int t : th) join(t);
    sleep_ns(10000000000ull);                  // threads the interpreter started have left the process
    if (knob("leak_check", 0, 2) == 0) { Gil g; Sut s; for (unsigned i = 0; i < nf; i++) if ((*fns)[i].kind < 3) { PyObject* r = py_call("c20_leak", Py_BuildValue("(ii)", (int)i, 12)); Py_XDECREF(r); break; } }
    if (unsigned n = (unsigned)pick("function_crowd", {0, 0, 0, 0, 40, 320})) {
        Gil g; Sut s; size_t first = fns->size();
        for (unsigned i = 0; i < n; i++) {
            char nm[40]; snprintf(nm, sizeof nm, i % 5 ? "made_%u" : "made_up_on_the_fly_%u", i);
            { Har h; fns->push_back({8, nm, true}); }
            Py_XDECREF(py_call("c20_make", Py_BuildValue("(isiO)", 8, nm, (int)(first + i), Py_True)));
        }
        Py_XDECREF(py_call("c20_crowd", Py_BuildValue("(ii)", (int)first, (int)n)));
    }
    if (unsigned w = (unsigned)knob("bye", 0, 9)) if (w < 8) {
        Gil g; Sut s; { Har h; fns->push_back({0, "bye", true}); }
        Py_XDECREF(py_call("c20_bye", Py_BuildValue("(iii)", (int)fns->size() - 1, (int)w, (int)knob("drop_module", 0, 1))));
    }
    { Sut s; int e = py_finalize(); if (e) { Har h; fail("finalize", "the interpreter did not shut down cleanly"); } }
    if (host) {                                // the library still works when Python has gone
        HT_FileDumpListener* h2; HT_ErrorCode e = HT_ERR_UNKNOWN;
        { Sut s; ht_timeline_flush(htl); h2 = ht_file_dump_listener_register(htl, "/sim/late", 256, &e); }
        if (!h2) fail("register", "late listener of the host: error %d", (int)e);
        host_call("host, after");
        { Sut s; ht_timeline_flush(htl); ht_file_dump_listener_stop(hl); ht_file_dump_listener_stop(h2); }
        Decoder d; std::vector<DEv> ev; size_t used = 0, calls = 0; std::string b = disk_get("/sim/late"); d.decode(b, ev, &used);
        if (!d.err.empty() || used != b.size()) fail("malformed-file", "late file: %zu of %zu bytes decode: %s", used, b.size(), d.err.c_str());
        for (auto& x : ev) calls += x.name == "HT_CallstackStringEvent" && x.s("label") == "host, after";
        if (calls != 1) fail("lost-host-call", "a file opened after Python had gone has the following call of the host %zu times", calls);
    }
    // ---- the file
    if (!disk_has(PATH)) fail("no-file", "the trace file does not exist after the interpreter has shut down");
    Decoder d; std::vector<DEv> ev; size_t used = 0; std::string b = disk_get(PATH); d.decode(b, ev, &used);
    if (!d.err.empty() || used != b.size()) fail("malformed-file", "%zu of %zu bytes decode: %s", used, b.size(), d.err.c_str());
    std::map<uint64_t, std::string> label; std::map<uint32_t, std::vector<const DEv*>> by; size_t meta = 0, hosted = 0;
    for (auto& e : ev) {
        if (e.name == "HT_StringMappingEvent") { auto it = label.find(e.u("identifier")); if (it != label.end() && it->second != e.s("label")) fail("remapped", "identifier %llx is mapped to \"%s\" and to \"%s\"", (unsigned long long)e.u("identifier"), it->second.c_str(), e.s("label").c_str()); label[e.u("identifier")] = e.s("label"); }
        else if (e.name == "HT_CallstackIntEvent") { if (!label.count(e.u("label"))) fail("used-before-mapped", "a traced call carries identifier %llx before the event that gives its name", (unsigned long long)e.u("label")); by[(uint32_t)e.u("thread_id")].push_back(&e); }
        else if (host && e.name == "HT_CallstackStringEvent") { static const char* const want[] = {"host, before", "host, after"}; if (hosted >= 2 || e.s("label") != want[hosted]) fail("wrong-host-call", "%s", show(e).c_str()); hosted++; }
        else if (e.name.compare(0, 3, "HT_")) fail("phantom-event", "%s", show(e).c_str());
        else meta++;
    }
    if (host && hosted != 2) fail("lost-host-call", "the file has %zu of the 2 calls the host traced itself", hosted);
    size_t total = 0, expect = 0, maybe = 0; std::set<std::string> proper; for (auto& f : *fns) if (named(f)) proper.insert(f.name);
    for (auto& kv : *lanes) {
        Lane& l = kv.second; auto& got = by[l.tid]; std::set<size_t> at{0};          // how many recorded calls the calls so far account for
        if (!l.st.empty()) fail("harness", "unfinished calls");
        for (auto& c : l.done) {
            Fn& f = (*fns)[c.fn]; bool sure_state = c.vb == c.ve, traced = f.deco && c.state && sure_state && named(f), may = f.deco && (!sure_state || c.state) && !traced;
            if (may) maybe++; else if (traced) expect++;
            auto matches = [&](const DEv& e) {
                uint64_t t0 = e.ts, t1 = e.ts + e.u("duration"); const std::string& nm = label[e.u("label")];
                return (!named(f) ? !proper.count(nm) : nm == f.name) && t0 >= c.tb && t0 <= c.te && t1 >= c.tl && t1 <= c.ta;
            };
            std::set<size_t> nx; for (size_t p : at) { if (!traced) nx.insert(p); if ((traced || may) && p < got.size() && matches(*got[p])) nx.insert(p + 1); }
            if (nx.empty()) {
                size_t p = *at.rbegin();
                if (p >= got.size()) fail("lost-call", "thread %u: traced call of \"%s\" (%llu..%llu) is not in the file (%zu of its calls are)", l.tid, f.name.c_str(), (unsigned long long)c.tb, (unsigned long long)c.ta, p);
                fail("wrong-call", "thread %u: call #%zu was \"%s\" entered %llu..%llu left %llu..%llu, recorded \"%s\" at %llu lasting %llu", l.tid, p, f.name.c_str(), (unsigned long long)c.tb, (unsigned long long)c.te, (unsigned long long)c.tl, (unsigned long long)c.ta, label[got[p]->u("label")].c_str(), (unsigned long long)got[p]->ts, (unsigned long long)got[p]->u("duration"));
            }
            at = nx;
        }
        size_t p = *at.rbegin(); total += p;
        if (p != got.size()) fail("phantom-call", "thread %u: %zu calls recorded, %zu made; the first that nobody made is \"%s\" at %llu", l.tid, got.size(), p, label[got[p]->u("label")].c_str(), (unsigned long long)got[p]->ts);
        by.erase(l.tid);
    }
    for (auto& k : by) if (!k.second.empty()) fail("wrong-thread", "%zu calls carry thread id %u, which no traced thread has", k.second.size(), k.first);
    if (host) { Sut s; ht_deinit(); }
    if (disk_open_handles()) fail("handle-leak", "the trace file is still open after shutdown");
    if (maybe) probe("calls racing with a toggle or without a usable name");
    fold(total); if (total) nontrivial(); note("host threads=%u python threads=%u calls recorded=%zu definite=%zu uncertain=%zu meta=%zu", nh, np, total, expect, maybe, meta);
}
Reg r1("C20", "python-program", python_program, 1);
}
