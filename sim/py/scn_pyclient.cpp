// C21: receiving events in Python (hawktracer.client), with the real interpreter.
#include "pyenv.h"
#include "../model.h"
#include <algorithm>
#include <cstring>
#include <memory>
using namespace sim;
namespace {
enum { PORT = 8765 };
PySrc src(R"PY(
HELD = []
class Ret: pass
RET = Ret()
RET0 = sys.getrefcount(RET)
class CbError(Exception): pass
class Sub: pass
def c21_check_refs(name, ev):
    # name/ev: two locals here, two in the caller, and what the caller's caller holds
    pass
def c21_cb(rnd, kind, at_ev):
    def ok(name, ev):
        simh.c21_event(rnd, name, ev); HELD.append((name, ev))
    def odd(name, ev):
        simh.c21_event(rnd, name, ev)
        n = len(HELD); HELD.append((name, ev))
        if n % 3 == 0: raise CbError(n)
        if n % 3 == 1: simh.y(); return RET
        time.sleep(0); return "x"
    def few(name): simh.fail("wrong-callback", "called with one argument")
    def star(*a):
        if len(a) != 2: simh.fail("wrong-callback", "called with %d arguments" % len(a))
        simh.c21_event(rnd, *a); simh.nap(500); HELD.append(a)
    class Obj:
        def __call__(self, name, ev): simh.c21_event(rnd, name, ev); HELD.append((name, ev))
        def m(self, name, ev): simh.c21_event(rnd, name, ev); HELD.append((name, ev))
    if kind == 0: return ok
    if kind == 1: return odd
    if kind == 2: return few
    if kind == 3: return star
    if kind == 4: return Obj()
    if kind == 5: return Obj().m
    at = at_ev
    def stopper(name, ev):
        nonlocal at
        simh.c21_event(rnd, name, ev); HELD.append((name, ev)); at -= 1
        me = CUR.get(rnd)
        if me is None: return
        if at == 0:
            if me.stop() is not None: simh.fail("wrong-result", "stop")
            simh.c21_closed(rnd)
            if not me.eos(): simh.fail("not-eos", "eos() is False after stop() in the callback")
            me.stop(); simh.probe("stopped by the callback")
        elif at == 1:
            if c21_try("wait", me.wait_for_eos) is None: simh.fail("no-exception", "a callback could wait for the end of its own stream")
    return stopper
CUR = {}
def c21_drop(p):
    # the callback releases the last reference to its own client
    import client
    box = [client.Client()]; k = []; st = []; done = []; restart = p["stop"] == 1
    def cb(name, ev):
        simh.c21_event(0, name, ev); HELD.append((name, ev)); k.append(1)
        if st and box and len(k) >= p["at"]:         # nobody but box refers to the client now
            if restart:
                if done: return
                done.append(1)
                simh.probe("restarted by the callback"); e = c21_try("start", box[0].start, "/sim/in.htdump", lambda n, e: simh.c21_event(1, n, e))
                if e is not None and not p["faulty"]: simh.fail("start-failed", "start() in a callback raised %r" % (e,))
                if e is None: simh.c21_closed(0)
            else:
                simh.probe("client released by the callback"); box.clear(); simh.c21_closed(0)
    simh.c21_serve(0)
    while c21_try("start", box[0].start, p["src"], cb) is not None: simh.y()
    st.append(1)
    for i in range(p["delay"]): simh.y()
    if p["later"]: simh.nap(p["later"])
    if p["exit"]:
        import __main__
        if p["exit"] > 1: __main__.box = box
        HELD.clear(); return
    simh.nap(20000000); box.clear(); simh.c21_closed(0); simh.nap(20000000)
    c = client.Client()
    while c21_try("start", c.start, "/sim/in.htdump") is not None: simh.y()
    c.wait_for_eos(); c.stop(); del c
def c21_try(what, f, *a):
    try: f(*a)
    except Exception as e:
        if isinstance(e, SystemError): simh.fail("internal-error", "%s() raised %r" % (what, e))
        return e.with_traceback(None)
    return None
def c21_poll_all(c, rnd, q, quit):
    # ends when the stream had ended before an empty poll
    while not quit:
        done = c.eos()
        e = c.poll_event()
        if e is None:
            if done: return True
            simh.nap(700); continue
        if type(e) is not tuple or len(e) != 2: simh.fail("wrong-result", "poll_event returned %r" % (e,))
        simh.c21_event(rnd, *e); HELD.append(e)
    return False
def c21_worker(c, rnd, op, quit, use_cb):
    if op == 0: c21_poll_all(c, rnd, None, quit)
    elif op == 1: c.wait_for_eos(); simh.c21_released(rnd)
    elif op == 2:
        while not quit and not c.eos(): simh.nap(300)
        if not quit: simh.c21_released(rnd)
    elif op == 3:
        for i in range(30):
            if use_cb:
                if c.poll_event() is not None: simh.fail("wrong-result", "poll_event returned an event although a callback was given")
            else:
                e = c.poll_event()
                if e is not None: simh.c21_event(rnd, *e); HELD.append(e)
            c.eos()
            if i % 4 == 0: simh.y()
    elif op == 4: c.stop()
    else:
        for i in range(3000):
            simh.adv(100); simh.y()
            if quit: break
def c21_round(c, p, rnd):
    cb = c21_cb(rnd, p["cb"], p["at"]) if p["cb"] >= 0 else None
    if p["cb"] == 6: CUR[rnd] = c
    r0 = sys.getrefcount(cb)
    quit = []
    srv = None
    if p["late"]:
        srv = threading.Thread(target=lambda: (simh.nap(3000), simh.c21_serve(rnd))); srv.start()
    else: simh.c21_serve(rnd)
    args = (p["src"], cb) if cb is not None else (p["src"], None) if p["none"] else (p["src"],)
    while True:
        x = c21_try("start", c.start, *args)
        if x is None: break
        if not p["faulty"]: simh.fail("start-failed", "start%r raised %r" % (args, x))
        simh.probe("start() raised after a fault"); c21_try("stop", c.stop); c21_try("poll_event", c.poll_event); simh.y()
    has_cb = cb is not None
    if p["own"] and has_cb: simh.probe("only the client refers to the callback"); args = None; cb = None
    ts = [threading.Thread(target=c21_worker, args=(c, rnd, op, quit, has_cb)) for op in p["ops"]]
    for t in ts: t.start()
    e = p["ending"]
    if e == 0:
        c.wait_for_eos(); simh.c21_released(rnd)
        if not has_cb: c21_poll_all(c, rnd, None, quit)
    elif e == 1:
        if not has_cb: c21_poll_all(c, rnd, None, quit)
        else:
            while not c.eos(): simh.nap(900)
        simh.c21_released(rnd)
    elif e == 2:
        for i in range(p["delay"]): simh.y()
        if p["later"]: simh.nap(p["later"])
    quit.append(1)
    if e != 3 or p["ops"]:
        if p["exit"]: pass
        elif p["stop"] or 4 in p["ops"] or p["idle"]:
            c.stop(); simh.c21_closed(rnd)
            if p["stop"] > 1: c.stop()
            if not c.eos(): simh.fail("not-eos", "eos() is False after stop()")
            c.wait_for_eos()
            if not has_cb and e == 2: c21_poll_all(c, rnd, None, [])
        for t in ts: t.join()
    if srv: srv.join()
    return cb, r0, ts
def c21_race(p):
    # several threads start the same client; one of the starts wins, the others are as good as stopped
    import client
    c = client.Client(); got = [[] for i in range(p["race"])]; ok = []
    def go(i):
        def cb(name, ev): got[i].append(name)
        if c21_try("start", c.start, "/sim/in.htdump", cb) is None: ok.append(i)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(p["race"])]
    for t in ts: t.start()
    for t in ts: t.join()
    simh.probe("a client started by several threads at once")
    n = [len(g) for g in got]
    if p["faulty"] and c21_try("wait_for_eos", c.wait_for_eos) is not None: return      # the last start() failed
    c.wait_for_eos()
    grew = [i for i in range(len(n)) if len(got[i]) > n[i]]
    if len(grew) > 1: simh.fail("delivered-after-stop", "two callbacks are called although the client was started again")
    if not p["faulty"]:
        if len(ok) != len(got): simh.fail("start-failed", "a start() raised when several threads started the client")
        if not any(len(g) == p["total"] for g in got): simh.fail("lost-event", "no callback got the %d events of the file: %r" % (p["total"], [len(g) for g in got]))
    c.stop(); n = [len(g) for g in got]; simh.nap(1000000)
    if n != [len(g) for g in got]: simh.fail("delivered-after-stop", "a callback was called after stop() had returned")
def c21_main(p):
    import client
    c = client.Client()
    if p["early"]:
        for m in ("poll_event", "eos", "stop", "wait_for_eos"): c21_try(m, getattr(c, m))
    if p["bad"]:
        simh.probe("start with bad arguments")
        for a in ((), (5,), (p["src"], 3), (p["src"], print, 1), ("/sim/nothing-here",), ("",)):
            if c21_try("start", c.start, *a) is None: simh.fail("no-exception", "start%r did not raise" % (a,))
        if c21_try("Client", client.Client, 1) is None: simh.fail("no-exception", "Client(1) did not raise")
    cbs = []
    if p["cb"] == 7:
        c21_drop(p)
        if p["exit"]: return
    else:
      for rnd in range(p["rounds"]):
        cbs.append(c21_round(c, p, rnd))
        if p["fresh"]: CUR.clear(); c = client.Client(); simh.c21_closed(rnd)
    if p["exit"]:
        import __main__
        HELD.clear(); __main__.client = c
        if p["exit"] > 1:
            __main__.others = [client.Client() for i in range(1 + p["more"])]
            def slow(name, ev): simh.nap(3000)
            for i, o in enumerate(__main__.others): c21_try("start", o.start, "/sim/in.htdump", *((slow,) if i else ()))
            if p["more"]: simh.probe("interpreter exits while many clients are running")
        return
    if p["race"]: c21_race(p)
    CUR.clear(); del c
    for rnd in range(p["rounds"]): simh.c21_closed(rnd)
    simh.c21_quit()
    d = None
    for i in range(len(HELD)):
        n = sys.getrefcount(HELD[i])
        if n != 2: simh.fail("reference-leak", "a delivered event (tuple) has %d references, 1 expected" % (n - 1))
        d = HELD[i][1]; n = sys.getrefcount(d) - 1
        if n != 2: simh.fail("reference-leak", "the dictionary of a delivered event has %d references, 1 expected" % (n - 1))
    simh.nap(50000000)
    if sys.getrefcount(RET) != RET0: simh.fail("reference-leak", "an object returned by the callback gained %d references" % (sys.getrefcount(RET) - RET0))
    if p["leak"]:
        HELD.clear(); del d; b = []
        for k in range(3):
            c = client.Client(); rnd = p["rounds"]
            c.start("/sim/in.htdump", lambda n, e: [n]) if p["cb"] >= 0 else c.start("/sim/in.htdump")
            c.wait_for_eos(); x = c.poll_event()
            while x is not None: x = c.poll_event()
            c.stop(); del c, x; simh.nap(50000000); b.append(simh.blocks())
        if b[2] - b[1] >= p["leak"]: simh.fail("memory-leak", "receiving %d events left %d more live blocks behind (%r)" % (p["leak"], b[2] - b[1], b))
    for cb, r0, ts in cbs:
        if cb is not None:
            n = sys.getrefcount(cb)
            if n != r0 + 1: simh.fail("reference-leak", "the callback has %d references after the client is gone, %d before start()" % (n - 1, r0))
)PY");
struct Got { std::string name; std::map<std::string, std::string> v; };
struct Round { std::vector<std::pair<int, Got>> got; bool closed = false; unsigned in_cb = 0; bool released = false; int server = -1; };
std::vector<Round>* rounds; std::vector<Got>* want; bool use_cb, bad_cb, full_expected; bool quit_servers; int srv = -1; std::string* bytes; bool idle_server, tcp; unsigned polls;
std::string canon(PyObject* o) {
    if (PyLong_CheckExact(o)) { int of = 0; long long v = PyLong_AsLongLongAndOverflow(o, &of); if (of > 0) return std::to_string(PyLong_AsUnsignedLongLong(o)); return std::to_string(v); }
    if (PyUnicode_Check(o)) { Py_ssize_t n = 0; const char* s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); return "s?"; } return "s:" + std::string(s, n); }
    return std::string("a ") + Py_TYPE(o)->tp_name;
}
std::string text(const Got& g) { std::string s = g.name + "{"; for (auto& k : g.v) s += k.first + "=" + k.second.substr(0, 40) + " "; return s + "}"; }
bool match(const Got& w, const Got& g) {
    if (w.name != g.name) return false;
    for (auto& k : w.v) { auto it = g.v.find(k.first); if (k.second == "s?") continue; if (it == g.v.end() || it->second != k.second) return false; }
    for (auto& k : g.v) if (!w.v.count(k.first)) return false;
    return true;
}
bool utf8_ok(const std::string& s) { PyObject* o = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), "strict"); if (!o) { PyErr_Clear(); return false; } Py_DECREF(o); return true; }
#define FN(name) PyObject* name(PyObject*, PyObject* a)
FN(f_event) {
    int r; PyObject *n, *d; if (!PyArg_ParseTuple(a, "iOO", &r, &n, &d)) return nullptr;
    if (!PyUnicode_CheckExact(n) || !PyDict_CheckExact(d)) { Har h; fail("wrong-type", "an event is delivered as (%s, %s)", Py_TYPE(n)->tp_name, Py_TYPE(d)->tp_name); }
    Har h; Round& R = (*rounds)[r];
    if (use_cb && R.closed) fail("callback-after-stop", "the callback was called after stop() had returned or the client was destroyed");
    Got g; g.name = PyUnicode_AsUTF8(n); Py_ssize_t p = 0; PyObject *k, *v; while (PyDict_Next(d, &p, &k, &v)) g.v[PyUnicode_Check(k) ? PyUnicode_AsUTF8(k) : "not a string"] = canon(v);
    size_t i = R.got.size(); if (use_cb && (i >= want->size() || !match((*want)[i], g))) fail("wrong-event", "event %zu of the stream is %s, the callback got %s", i, i < want->size() ? text((*want)[i]).c_str() : "(past the end)", text(g).c_str());
    R.got.push_back({self_id(), g}); Py_RETURN_NONE;
}
FN(f_released) { Har h; Round& R = (*rounds)[PyLong_AsLong(a)]; if (R.closed || quit_servers) Py_RETURN_NONE; if (use_cb && !bad_cb && full_expected && R.got.size() != want->size()) fail("early-eos", "the stream is reported to have ended after %zu of %zu events were delivered", R.got.size(), want->size()); R.released = true; Py_RETURN_NONE; }
FN(f_closed) { Har h; (*rounds)[PyLong_AsLong(a)].closed = true; Py_RETURN_NONE; }
FN(f_quit) { Har h; quit_servers = true; disable_faults(); Py_RETURN_NONE; }
FN(f_serve) {
    Har h; if (!tcp) Py_RETURN_NONE; int rn = (int)PyLong_AsLong(a);
    if (srv < 0) srv = net_listen(PORT);
    (*rounds)[rn].server = spawn("server", [rn] {
        int peer = net_accept(srv); if (peer < 0) return; Rng r(seed() ^ (77 + rn)); size_t p = 0;
        while (p < bytes->size()) { size_t z = std::min<size_t>(1 + r.below(r.chance(1, 3) ? 4 : 400), bytes->size() - p); long q = net_send(peer, bytes->data() + p, z); if (q <= 0) break; p += (size_t)q; if (r.chance(1, 5)) sleep_ns(r.below(5000)); }
        if (idle_server) wait_until([peer] { return quit_servers || net_peer_gone(peer) || net_peer_eof(peer); }, "client to go");
        net_close(peer);
    }, false);
    Py_RETURN_NONE;
}
PyFns fnreg([](std::vector<PyMethodDef>& v) {
    v.push_back({"c21_event", f_event, METH_VARARGS, ""}); v.push_back({"c21_released", f_released, METH_O, ""}); v.push_back({"c21_closed", f_closed, METH_O, ""});
    v.push_back({"c21_quit", f_quit, METH_NOARGS, ""}); v.push_back({"c21_serve", f_serve, METH_O, ""});
});
void python_client() {
    rounds = new std::vector<Round>; want = new std::vector<Got>; bytes = new std::string; quit_servers = false; srv = -1; polls = 0;
    unsigned n = (unsigned)knob("events", 0, 30), nr = (unsigned)knob("rounds", 1, 2), nw = (unsigned)knob("workers", 0, 3); bool badstr = knob("bad_utf8", 0, 2) == 0, crowd = knob("crowd", 0, 1);
    tcp = knob("tcp", 0, 1); int cb = knob("callback", 0, 2) ? (int)pick("callback_kind", {0, 0, 1, 2, 3, 4, 5, 6, 6, 7}) : -1; int ending = (int)knob("ending", 0, 3);
    idle_server = tcp && knob("peer_stays", 0, 1); if (idle_server && ending < 2) ending = 2; bool late = tcp && knob("late", 0, 1);
    set_clock_step(pick("clock_step", {1, 1, 100, 20000})); set_step_cap(4000000); set_starvation_bound(3000); set_stdio_buffer(pick("stdio_buf", {0, 1, 7, 64, 512}));
    // ---- the trace, written by the library
    {
        HT_ErrorCode e; HT_Timeline* t; lib_init(-1, false);
        { Sut s; t = ht_timeline_create(256, HT_FALSE, HT_TRUE, nullptr, &e); if (t) ht_file_dump_listener_register(t, "/sim/in.htdump", 512, &e); }
        if (!t || e != HT_ERR_OK) fail("create-failed", "%d", e);
        for (unsigned i = 0; i < n; i++) {
            Rng r(1); if (!op_keep(&r)) continue; UEv ev = gen_ev(r, mk_tag(1, i), 0x3f, 40, false);
            if (!badstr || r.chance(2, 3)) for (std::string* s : {&ev.s1, &ev.s2}) { if (r.chance(1, 5)) *s = "\xc5\xbc\xf0\x9f\x90\x8d " + std::to_string(i); else for (auto& c : *s) c = 'a' + (unsigned char)c % 26; }
            Sut s; user_push(t, ev);
        }
        { Sut s; ht_timeline_destroy(t); ht_deinit(); }
    }
    *bytes = disk_get("/sim/in.htdump"); if (knob("truncate", 0, 4) == 0) { bytes->resize(knob("cut", 0, 100000) % (bytes->size() + 1)); note_fault(F_TRUNCATE); disk_put("/sim/in.htdump", *bytes); }
    Decoder d; std::vector<DEv> ev; size_t used; d.decode(*bytes, ev, &used); bool any_bad = false;
    {
        Gil g;
        for (auto& e : ev) {
            Got w; w.name = e.name; w.v["timestamp"] = std::to_string(e.ts); w.v["id"] = std::to_string(e.id); w.v["klass_id"] = std::to_string(e.klass);
            for (auto& f : e.v) {
                std::string& o = w.v[f.first];
                if (f.second.is_str) { if (utf8_ok(f.second.s)) o = "s:" + f.second.s; else { o = "s?"; any_bad = true; } }
                else if (f.second.dt == 3) { unsigned sh = 64 - 8 * (unsigned)f.second.size; o = std::to_string((int64_t)(f.second.u << sh) >> sh); }
                else o = std::to_string(f.second.u);
            }
            want->push_back(w);
        }
    }
    use_cb = cb >= 0; bad_cb = cb == 2; full_expected = ending < 2 && !idle_server && cb < 6; if (cb == 7) { nw = 0; nr = 1; } rounds->resize(nr + 2);
    bool faulty = knob("faulty", 0, 1); if (faulty) { enable_fault(F_SOCKET_FAIL, 1, 5); enable_fault(F_OPEN_FAIL, 1, 6); enable_fault(F_CONNECT_REFUSED, 1, 5); enable_fault(F_READ_SHORT, 1, 3); enable_fault(F_SHORT_RECV, 1, 3); enable_fault(F_RECV_EINTR, 1, 12); enable_fault(F_SPURIOUS_WAKE, 1, 10); }
    py_setup(pick("switch_interval_us", {1, 50, 5000}));
    bool fresh = knob("fresh_client", 0, 1), bad = knob("bad_args", 0, 3) == 0, early = knob("early", 0, 3) == 0; unsigned stop = (unsigned)knob("stop", 0, 2);
    int exit_live = knob("exit_live", 0, 5); if (exit_live > 2) exit_live = 0;
    if (exit_live && idle_server) nw = 0;
    int more = (int)pick("more_clients", {0, 0, 0, 11}), race = (int)knob("racing_starts", 0, 5); race = race < 3 || want->size() > 400 ? 0 : race - 1;
    {
        Gil g; Sut s; PyObject* ops = PyList_New(0);
        if (ending != 3) for (unsigned i = 0; i < nw; i++) { int op = (int)((seed() >> (i * 6)) % 6); if (op == 0 && use_cb) op = 3; if (op == 4) full_expected = false; if ((op == 0 || op == 3) && !use_cb && !crowd) op = 1; PyObject* o = PyLong_FromLong(op); PyList_Append(ops, o); Py_DECREF(o); }
        PyObject* p = Py_BuildValue("{sisisisisisisisisssisisisisisisisNsisisisisisi}", "race", race, "total", (int)want->size(), "more", more, "own", (int)(knob("callback_let_go", 0, 2) == 2), "faulty", (int)faulty, "exit", exit_live, "at", (int)knob("at_event", 1, 25), "cb", cb, "src", tcp ? "127.0.0.1:8765" : "/sim/in.htdump", "late", (int)late, "none", (int)knob("pass_none", 0, 1), "ending", ending, "delay", (int)knob("delay", 0, 60), "later", (int)pick("later", {0, 0, 500, 8000}), "stop", (int)stop, "idle", (int)idle_server, "ops", ops, "early", (int)early, "bad", (int)bad, "tcp", (int)tcp, "rounds", (int)nr, "fresh", (int)fresh, "leak", want->size() > 10 && knob("leak_check", 0, 2) == 0 ? (int)want->size() : 0);
        Py_XDECREF(py_call("c21_main", Py_BuildValue("(N)", p)));
    }
    if (exit_live) {
        probe("interpreter exits while a client is running");
        { Sut s; int e = py_finalize(); if (e) { Har h; fail("finalize", "the interpreter did not shut down cleanly"); } }
        if (use_cb) for (auto& r : *rounds) r.closed = true;
    }
    quit_servers = true; sleep_ns(10000000000ull);
    if (tcp) { for (auto& r : *rounds) if (r.server >= 0) join(r.server); if (srv >= 0) net_unlisten(srv); if (net_open_sut_fds()) fail("descriptor-leak", "%d descriptors still open after the client was destroyed", net_open_sut_fds()); if (net_bad_closes()) fail("double-close", "a descriptor was closed or used after it was closed"); }
    if (disk_open_handles()) fail("handle-leak", "the input file is still open");
    size_t total = 0;
    for (unsigned r = 0; r < nr; r++) {
        auto& got = (*rounds)[r].got; total += got.size();
        if (bad_cb) { if (!got.empty()) fail("harness", "?"); continue; }
        if (got.size() > want->size()) fail("phantom-event", "the stream holds %zu events, %zu were delivered", want->size(), got.size());
        if (full_expected && (use_cb || got.size() != want->size()) && got.size() != want->size()) fail("lost-event", "the stream holds %zu events, %zu were delivered", want->size(), got.size());
        // pollers share the queue: together they got a prefix of the stream, each in order
        std::map<int, size_t> last; std::vector<bool> taken(want->size(), false);
        for (auto& g : got) {
            size_t from = last.count(g.first) ? last[g.first] + 1 : 0, i = from; while (i < want->size() && (taken[i] || !match((*want)[i], g.second))) i++;
            if (i >= want->size()) fail("wrong-event", "delivered %s, which is not in the stream (or out of order; %zu events before it)", text(g.second).c_str(), (size_t)std::count(taken.begin(), taken.end(), true));
            taken[i] = true; last[g.first] = i;
        }
        for (size_t i = 0; i + 1 < taken.size(); i++) if (!taken[i] && taken[i + 1] && got.size() <= i + 1) fail("lost-event", "event %zu of the stream was skipped: %s", i, text((*want)[i]).c_str());
        size_t hole = 0; while (hole < taken.size() && taken[hole]) hole++; if (hole < got.size()) fail("lost-event", "event %zu of the stream was skipped: %s", hole, text((*want)[hole]).c_str());
        if (got.size() < want->size()) probe("stopped before the end");
    }
    if (any_bad && total) probe("strings that are not UTF-8"); if (late) probe("server started by a Python thread after the client");
    if (!exit_live) { Sut s; int e = py_finalize(); if (e) { Har h; fail("finalize", "the interpreter did not shut down cleanly"); } }
    fold(total); if (total) nontrivial(); note("source=%s mode=%s events=%zu x%u delivered=%zu workers=%u ending=%d", tcp ? "tcp" : "file", use_cb ? "callback" : "poll", want->size(), nr, total, nw, ending);
}
Reg r1("C21", "python-client", python_client, 1);
}
