# cython: language_level=3, boundscheck=True, nonecheck=True
"""Monitors in native code: an allocator for numpy arrays that hands out poisoned memory, and deliberate defects that
the sanitizers must report (self-test of the instrumentation)."""
import numpy as np
cimport numpy as np
from cpython.pycapsule cimport PyCapsule_New

np.import_array()

cdef extern from *:
    """
    #include <stdlib.h>
    #include <string.h>
    static int vf_pattern = 0;
    static long vf_allocated = 0, vf_poisoned = 0;
    static void *vf_malloc(void *ctx, size_t n) {
        void *p = malloc(n ? n : 1);
        if (p) { memset(p, vf_pattern, n); vf_allocated++; vf_poisoned += n; }
        return p;
    }
    static void *vf_calloc(void *ctx, size_t n, size_t s) { return calloc(n ? n : 1, s ? s : 1); }
    static void *vf_realloc(void *ctx, void *p, size_t n) { return realloc(p, n ? n : 1); }
    static void vf_free(void *ctx, void *p, size_t n) {
        if (p) { memset(p, vf_pattern, n); }
        free(p);
    }
    static PyDataMem_Handler vf_handler = {"vf_poison", 1, {NULL, vf_malloc, vf_calloc, vf_realloc, vf_free}};
    static double vf_heap(int n) { volatile double *p = (double*) malloc(n * sizeof(double)); double r; p[0] = 1; r = p[n]; free((void*) p); return r; }
    static double vf_freed(int n) { volatile double *p = (double*) malloc(n * sizeof(double)); p[0] = 1; free((void*) p); return p[0]; }
    static int vf_cast(double x) { return (int) x; }
    """
    int vf_pattern
    long vf_allocated, vf_poisoned
    double vf_heap(int n)
    double vf_freed(int n)
    int vf_cast(double x)
    ctypedef struct PyDataMem_Handler:
        pass
    PyDataMem_Handler vf_handler
    object PyDataMem_SetHandler(object)


def poison(int pattern):
    """From now on, every new numpy buffer is filled with ``pattern``."""
    global vf_pattern
    vf_pattern = pattern
    PyDataMem_SetHandler(PyCapsule_New(&vf_handler, "mem_handler", NULL))


def stats():
    return vf_allocated, vf_poisoned


# -- canaries ---------------------------------------------------------------------------------------
cdef double unraisable(double x):
    if x > 0:
        raise ValueError('lost exception')
    return x


def canary_float_cast():
    return vf_cast(1e300)


def canary_heap_overflow():
    return vf_heap(4)


def canary_use_after_free():
    return vf_freed(4)


def canary_bounds():
    cdef double[::1] x = np.zeros(4)
    cdef int i = len(x)
    return x[i]


def canary_numpy_overflow():
    x = np.ndarray(shape=4, dtype=np.float64)
    cdef double[::1] v = x
    cdef double* p = &v[0]
    return p[4]


def canary_unraisable():
    return unraisable(1.)


def canary_uninitialised():
    return np.ndarray(shape=3, dtype=np.float64).tolist()
