#include "pyenv.h"
#include "../rt_internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
using namespace sim;
extern void (*sim_prefork)();
PyMODINIT_FUNC PyInit_core(void);
PyMODINIT_FUNC PyInit_client(void);
PyThreadState* py_main_state; bool py_gil_checks = true;
static std::vector<void (*)(std::vector<PyMethodDef>&)>& adders() { static auto* v = new std::vector<void (*)(std::vector<PyMethodDef>&)>; return *v; }
static std::vector<const char*>& sources() { static auto* v = new std::vector<const char*>; return *v; }
PyFns::PyFns(void (*add)(std::vector<PyMethodDef>&)) { adders().push_back(add); }
PySrc::PySrc(const char* t) { sources().push_back(t); }
static PyObject* globals;
static std::string g_stderr;

// ---- called by the trampolines the bindings' C-API calls go through
extern "C" void sim_py_gil_check(const char* name) {
    if (!in_sim() || !py_gil_checks || _PyThreadState_UncheckedGet()) return;
    Har h; fail("no-gil", "%s() is called by a thread that does not hold the GIL", name);
}

static PyObject* h_y(PyObject*, PyObject*) { { Har h; yield(); } Py_RETURN_NONE; }
static PyObject* h_nap(PyObject*, PyObject* a) { unsigned long long n = PyLong_AsUnsignedLongLong(a); Py_BEGIN_ALLOW_THREADS { Har h; sleep_ns(n); } Py_END_ALLOW_THREADS Py_RETURN_NONE; }
static PyObject* h_adv(PyObject*, PyObject* a) { unsigned long long n = PyLong_AsUnsignedLongLong(a); { Har h; advance(n); } Py_RETURN_NONE; }
static PyObject* h_err(PyObject*, PyObject* a) { const char* s = PyUnicode_AsUTF8(a); if (s && g_stderr.size() < 2000) { Har h; g_stderr += s; } PyErr_Clear(); Py_RETURN_NONE; }
static PyObject* h_fail(PyObject*, PyObject* a) { const char *c, *d; if (!PyArg_ParseTuple(a, "ss", &c, &d)) return nullptr; Har h; fail(c, "%s", d); Py_RETURN_NONE; }
static PyObject* h_probe(PyObject*, PyObject* a) { Har h; probe(PyUnicode_AsUTF8(a)); Py_RETURN_NONE; }
static PyModuleDef simh_def = {PyModuleDef_HEAD_INIT, "simh", "simulator", -1, nullptr};
PyMODINIT_FUNC PyInit_simh(void) {
    static auto* m = new std::vector<PyMethodDef>{{"y", h_y, METH_NOARGS, ""}, {"nap", h_nap, METH_O, ""}, {"adv", h_adv, METH_O, ""}, {"err", h_err, METH_O, ""}, {"fail", h_fail, METH_VARARGS, ""}, {"probe", h_probe, METH_O, ""}};
    for (auto f : adders()) f(*m);
    m->push_back({nullptr, nullptr, 0, nullptr});
    simh_def.m_methods = m->data();
    return PyModule_Create(&simh_def);
}
static void die(const char* what) { fprintf(stderr, "simulator error: %s\n", what); if (PyErr_Occurred()) PyErr_Print(); _exit(3); }
static void prefork() {
    clearenv(); setenv("LC_ALL", "C.UTF-8", 1);
    PyImport_AppendInittab("core", PyInit_core); PyImport_AppendInittab("client", PyInit_client); PyImport_AppendInittab("simh", PyInit_simh);
    PyPreConfig pc; PyPreConfig_InitIsolatedConfig(&pc); pc.allocator = PYMEM_ALLOCATOR_MALLOC; pc.utf8_mode = 1; pc.configure_locale = 0;
    if (PyStatus_Exception(Py_PreInitialize(&pc))) die("Python pre-initialisation");
    PyConfig c; PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0; c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.parse_argv = 0;
    PyConfig_SetBytesString(&c, &c.program_name, "python3");
    c.module_search_paths_set = 1; PyWideStringList_Append(&c.module_search_paths, L"" PY_STDLIB); PyWideStringList_Append(&c.module_search_paths, L"" PY_STDLIB "/lib-dynload");
    if (PyStatus_Exception(Py_InitializeFromConfig(&c))) die("Python initialisation");
    globals = PyDict_New(); PyDict_SetItemString(globals, "__builtins__", PyEval_GetBuiltins());
    std::string src = "import sys, gc, threading, time, functools, _thread, simh\nclass _E:\n  def write(self, s): simh.err(s)\n  def flush(self): pass\nsys.stderr = sys.stdout = _E()\ngc.disable()\ndef _become_main(): threading._main_thread._ident = _thread.get_ident()\n";
    for (auto s : sources()) src += s;
    PyObject* r = PyRun_String(src.c_str(), Py_file_input, globals, globals);
    if (!r) { PySys_SetObject("stderr", PySys_GetObject("__stderr__")); die("prelude"); }
    PyGC_Collect();
    py_main_state = PyEval_SaveThread();
}
static struct Install { Install() { sim_prefork = prefork; } } install;

Gil::Gil() : st(PyGILState_Ensure()) {}
Gil::~Gil() { PyGILState_Release(st); }
PyObject* py_get(const char* n) { PyObject* o = PyDict_GetItemString(globals, n); if (!o) fail("harness", "no prelude object %s", n); return o; }
std::string py_error() {
    std::string s; PyObject* e = PyErr_GetRaisedException(); if (!e) return "no exception";
    PyObject* t = PyObject_Str(e); s = std::string(Py_TYPE(e)->tp_name) + ": " + (t ? PyUnicode_AsUTF8(t) : "?");
    PyObject* tb = PyException_GetTraceback(e);
    for (PyTracebackObject* p = (PyTracebackObject*)tb; p; p = p->tb_next) s += " @" + std::to_string(PyCode_Addr2Line(PyFrame_GetCode(p->tb_frame), p->tb_lasti));
    Py_XDECREF(tb); Py_XDECREF(t); Py_DECREF(e); return s + (g_stderr.empty() ? "" : " [stderr: " + g_stderr + "]");
}
PyObject* py_call(const char* n, PyObject* args) {
    PyObject* r = PyObject_Call(py_get(n), args, nullptr); Py_DECREF(args);
    if (!r) { std::string e = py_error(); Har h; fail("python-error", "%s: %s", n, e.c_str()); }
    return r;
}
int py_finalize() {
    { Gil g; PyObject* r = py_call("_become_main", PyTuple_New(0)); Py_XDECREF(r); }
    py_gil_checks = false; PyEval_RestoreThread(py_main_state); return Py_FinalizeEx();
}
void py_setup(uint64_t us) { Gil g; PyObject* o = PyObject_CallMethod((PyObject*)PyImport_AddModule("sys"), "setswitchinterval", "d", us / 1e6); Py_XDECREF(o); }
