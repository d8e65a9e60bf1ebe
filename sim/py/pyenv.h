// A real CPython interpreter inside the simulator (C20, C21).
#pragma once
#include <Python.h>
#include "../rt.h"
#include <string>
#include <vector>
extern PyThreadState* py_main_state;
extern bool py_gil_checks;                       // the bindings' C-API calls are checked for holding the GIL
void py_harness_functions(std::vector<PyMethodDef>& out);      // contributed by the scenarios
struct PyFns { PyFns(void (*add)(std::vector<PyMethodDef>&)); };
struct PySrc { PySrc(const char* text); };       // Python source appended to the prelude
// Takes / gives up the interpreter for a stretch of harness code.
struct Gil { PyGILState_STATE st; Gil(); ~Gil(); };
PyObject* py_get(const char* name);              // borrowed reference to a prelude global
// Calls a prelude function inside the simulation; the result (new reference) or a failure "python-error".
PyObject* py_call(const char* name, PyObject* args);
std::string py_error();                          // fetches and clears the pending exception
void py_setup(uint64_t switch_interval_us);
int py_finalize();                               // the calling thread becomes the main thread and shuts the interpreter down
