/* numpy data allocator (NEP 49) whose n-th allocation after arm() fails: the memory seam of the simulator. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>

static long long count = 0, fail_at = 0, fired = 0;
static int persistent = 0, armed = 0, fill = -1;

/* where in the library the allocations were asked for, recorded while counting (the two innermost library frames) */
#define MAXSITES 400000
static unsigned int *sites = NULL;
static int recording = 0;
static unsigned int where(void)
{
    unsigned int h = 2166136261u;
    int found = 0;
    if (!PyGILState_Check()) return 0;
    PyFrameObject *f = PyEval_GetFrame();
    Py_XINCREF(f);
    while (f && found < 2) {
        PyCodeObject *c = PyFrame_GetCode(f);
        const char *name = c ? PyUnicode_AsUTF8(c->co_filename) : NULL;
        if (name && strstr(name, "/src/wafo/")) {
            found++;
            for (; *name; name++) h = (h ^ (unsigned char)*name) * 16777619u;
            h = (h ^ (unsigned int)PyFrame_GetLineNumber(f)) * 16777619u;
        }
        Py_XDECREF(c);
        PyFrameObject *b = PyFrame_GetBack(f);
        Py_DECREF(f);
        f = b;
    }
    Py_XDECREF(f);
    return h;
}
static int should_fail(void)
{
    if (!armed) return 0;
    if (recording && count < MAXSITES) sites[count] = where();
    count++;
    if (fail_at > 0 && (count == fail_at || (persistent && count > fail_at))) { fired++; return 1; }
    return 0;
}
/* GUARD bytes before and after every array also hold the fill: what code reading past an array gets is then decided by the
   simulator, not by whatever the process has there */
#define GUARD 64
static void *guarded(char *q, size_t n)
{
    if (!q) return NULL;
    memset(q, fill >= 0 ? fill : 0, GUARD);
    memset(q + GUARD + n, fill >= 0 ? fill : 0, GUARD);
    return q + GUARD;
}
static void *f_malloc(void *ctx, size_t n)
{
    if (should_fail() || n > (size_t)-1 - 2 * GUARD) return NULL;
    char *p = guarded(malloc(n + 2 * GUARD), n);
    if (p && fill >= 0) memset(p, fill, n);      /* fresh memory is not zero in real life either */
    return p;
}
static void *f_calloc(void *ctx, size_t n, size_t m)
{
    size_t s;
    if (should_fail() || __builtin_mul_overflow(n, m, &s) || s > (size_t)-1 - 2 * GUARD) return NULL;
    return guarded(calloc(1, s + 2 * GUARD), s);
}
static void *f_realloc(void *ctx, void *p, size_t n)
{
    if (should_fail() || n > (size_t)-1 - 2 * GUARD) return NULL;
    return guarded(realloc(p ? (char *)p - GUARD : NULL, n + 2 * GUARD), n);
}
static void f_free(void *ctx, void *p, size_t n) { if (p) free((char *)p - GUARD); }

static PyDataMem_Handler handler = { "simfault", 1, { NULL, f_malloc, f_calloc, f_realloc, f_free } };

static PyObject *install(PyObject *self, PyObject *args)
{
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}
static PyObject *arm(PyObject *self, PyObject *args)
{
    long long n; int p;
    if (!PyArg_ParseTuple(args, "Lp", &n, &p)) return NULL;
    count = 0; fired = 0; fail_at = n; persistent = p; recording = 0; armed = 1;
    Py_RETURN_NONE;
}
static PyObject *record(PyObject *self, PyObject *args)
{
    if (!sites) sites = malloc(MAXSITES * sizeof *sites);
    count = 0; fired = 0; fail_at = 0; persistent = 0; recording = sites != NULL; armed = 1;
    Py_RETURN_NONE;
}
static PyObject *recorded(PyObject *self, PyObject *args)
{
    return PyBytes_FromStringAndSize((char *)sites, recording ? (count < MAXSITES ? count : MAXSITES) * sizeof *sites : 0);
}
static PyObject *disarm(PyObject *self, PyObject *args)
{
    armed = 0;
    return Py_BuildValue("LL", count, fired);
}
static PyObject *set_fill(PyObject *self, PyObject *args)
{
    if (!PyArg_ParseTuple(args, "i", &fill)) return NULL;
    mallopt(M_PERTURB, fill > 0 ? (fill ^ 0xff ? fill ^ 0xff : 1) : 0);     /* memory that compiled code gets from malloc */
    Py_RETURN_NONE;
}
/* what compiled code called from here on finds on its stack */
static void __attribute__((noinline)) scrub_stack(void)
{
    volatile char junk[400000];
    memset((char *)junk, fill >= 0 ? fill : 0, sizeof junk);
    __asm__ volatile("" : : "r"(junk) : "memory");
}
static PyObject *scrub(PyObject *self, PyObject *args) { scrub_stack(); Py_RETURN_NONE; }
static PyMethodDef methods[] = {
    {"scrub", scrub, METH_NOARGS, ""}, {"install", install, METH_NOARGS, ""}, {"arm", arm, METH_VARARGS, ""}, {"record", record, METH_NOARGS, ""}, {"recorded", recorded, METH_NOARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {"set_fill", set_fill, METH_VARARGS, ""},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "allocfault", NULL, -1, methods};
PyMODINIT_FUNC PyInit_allocfault(void) { import_array(); return PyModule_Create(&mod); }
