/* A numpy data allocator that counts allocations and can make the n-th one fail. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>

static long countdown, count, fired;
static int armed;

static int fail(void) {
    if (!armed) return 0;
    count++;
    if (countdown > 0 && --countdown == 0) { fired++; return 1; }
    return 0;
}
static void *s_malloc(void *c, size_t n) { return fail() ? NULL : malloc(n ? n : 1); }
static void *s_calloc(void *c, size_t n, size_t e) { return fail() ? NULL : calloc(n ? n : 1, e ? e : 1); }
static void *s_realloc(void *c, void *p, size_t n) { return fail() ? NULL : realloc(p, n ? n : 1); }
static void s_free(void *c, void *p, size_t n) { free(p); }
static PyDataMem_Handler handler = {"sim_allocator", 1, {NULL, s_malloc, s_calloc, s_realloc, s_free}};

static PyObject *install(PyObject *self, PyObject *a) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *arm(PyObject *self, PyObject *a) {
    long n;
    if (!PyArg_ParseTuple(a, "l", &n)) return NULL;
    countdown = n; count = 0; fired = 0; armed = 1;
    Py_RETURN_NONE;
}
static PyObject *disarm(PyObject *self, PyObject *a) {
    armed = 0;
    return Py_BuildValue("ll", count, fired);
}
static PyObject *peek(PyObject *self, PyObject *a) { return PyLong_FromLong(count); }
static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {"peek", peek, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, methods};
PyMODINIT_FUNC PyInit_simalloc(void) { import_array(); return PyModule_Create(&mod); }
