// C28: Python objects mirror the native stack trace through any edit history.
// The real bindings (python/*.c, sanitized) run inside an embedded interpreter; the histories and the reference
// model are written in C28.py, which takes every decision through mc.choose().
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "mc.h"
#include <exception>
#include <sys/resource.h>
extern "C" PyObject *PyInit__satyr3(void);
static PyObject *stop_type, *main_dict; static std::exception_ptr saved;
static PyObject *stop() { saved = std::current_exception(); PyErr_SetString(stop_type, "stop"); return nullptr; }
static PyObject *m_choose(PyObject *, PyObject *a) { int n; if (!PyArg_ParseTuple(a, "i", &n)) return nullptr; try { return PyLong_FromLong(mc::choose(n)); } catch (...) { return stop(); } }
static PyObject *m_prune(PyObject *, PyObject *) { try { mc::prune(); } catch (...) { return stop(); } }
static PyObject *m_fail(PyObject *, PyObject *a) { const char *k, *t; if (!PyArg_ParseTuple(a, "ss", &k, &t)) return nullptr; try { mc::fail(k, "%s", t); } catch (...) { return stop(); } }
static PyObject *m_describe(PyObject *, PyObject *a) { const char *t; if (!PyArg_ParseTuple(a, "s", &t)) return nullptr; mc::describe(t); Py_RETURN_NONE; }
static PyObject *m_outcome(PyObject *, PyObject *a) { const char *t; if (!PyArg_ParseTuple(a, "s", &t)) return nullptr; mc::outcome(std::string(t)); Py_RETURN_NONE; }
static PyObject *m_state(PyObject *, PyObject *a) { const char *t; if (!PyArg_ParseTuple(a, "s", &t)) return nullptr; mc::state(t); Py_RETURN_NONE; }
static PyObject *m_step(PyObject *, PyObject *) { mc::step(); Py_RETURN_NONE; }
static PyObject *m_validated(PyObject *, PyObject *) { mc::validated(); Py_RETURN_NONE; }
static PyObject *m_nontrivial(PyObject *, PyObject *) { mc::nontrivial(); Py_RETURN_NONE; }
static PyObject *m_thorough(PyObject *, PyObject *) { return PyBool_FromLong(mc::thorough()); }
static mc::HeapRegion *region;
static PyObject *m_heap(PyObject *, PyObject *) { long n = 0; if (region) { n = region->live(); region->stop(); delete region; region = nullptr; } else region = new mc::HeapRegion; return PyLong_FromLong(n); } // starts a region, then ends it
static PyObject *m_live(PyObject *, PyObject *) { return PyLong_FromLong(region ? region->live() : -1); }
static PyMethodDef methods[] = {{"heap", m_heap, METH_NOARGS}, {"live", m_live, METH_NOARGS}, {"choose", m_choose, METH_VARARGS}, {"prune", m_prune, METH_NOARGS}, {"fail", m_fail, METH_VARARGS}, {"describe", m_describe, METH_VARARGS}, {"outcome", m_outcome, METH_VARARGS}, {"state", m_state, METH_VARARGS}, {"step", m_step, METH_NOARGS}, {"validated", m_validated, METH_NOARGS}, {"nontrivial", m_nontrivial, METH_NOARGS}, {"thorough", m_thorough, METH_NOARGS}, {nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "mc", nullptr, -1, methods};
static PyObject *init_mc(void) { PyObject *m = PyModule_Create(&def); stop_type = PyErr_NewException("mc.Stop", PyExc_BaseException, nullptr); PyModule_AddObject(m, "Stop", stop_type); Py_INCREF(stop_type); return m; }
static void die(const char *what) { if (PyErr_Occurred()) PyErr_Print(); fprintf(stderr, "C28 harness: %s\n", what); _exit(77); }
static void start()
{
    if (main_dict) return;
    PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1; if (PyStatus_Exception(Py_PreInitialize(&pre))) die("preinitialize");
    PyImport_AppendInittab("_satyr3", PyInit__satyr3); PyImport_AppendInittab("mc", init_mc);
    PyConfig c; PyConfig_InitIsolatedConfig(&c); c.site_import = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.pathconfig_warnings = 0; PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3"); if (PyStatus_Exception(Py_InitializeFromConfig(&c))) die("initialize");
    std::string path = __FILE__; path.replace(path.size() - 2, 2, "py"); FILE *f = fopen(path.c_str(), "r"); if (!f) die(path.c_str()); PyObject *m = PyImport_AddModule("__main__"); main_dict = PyModule_GetDict(m);
    PyObject *r = PyRun_File(f, path.c_str(), Py_file_input, main_dict, main_dict); if (!r) die("script"); Py_DECREF(r); fclose(f);
}
static void run(const char *name)
{
    if (region) { region->stop(); delete region; region = nullptr; } start(); PyObject *f = PyDict_GetItemString(main_dict, name); if (!f) die(name); PyObject *r = PyObject_CallNoArgs(f); Py_XDECREF(r); if (r) return;
    if (saved) { PyErr_Clear(); std::exception_ptr e = saved; saved = nullptr; std::rethrow_exception(e); }
    PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); PyObject *text = PyObject_CallFunction(PyDict_GetItemString(main_dict, "explain"), "OOO", t, v ? v : Py_None, b ? b : Py_None); const char *s = text ? PyUnicode_AsUTF8(text) : nullptr; std::string msg = s ? s : "?"; if (!text) PyErr_Print(); Py_XDECREF(text); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
    mc::fail("exception|" + msg.substr(0, msg.find('\n')), "unexpected exception: %s", msg.c_str());
}
#define PY(id) MC_SCENARIO(id) { run(#id); }
PY(attributes) PY(frames) PY(threads) PY(gdb) PY(core) PY(report) PY(packages) PY(matrix) PY(parts) PY(part_args) PY(dendrogram) PY(texts) PY(api) PY(sizes) PY(released)
