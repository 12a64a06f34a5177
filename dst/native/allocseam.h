/* Allocation seam: included in front of cntr.c when the check compiles its own copy of
   the extension (-include). Every allocation the contour tracer asks for is counted;
   the simulator can make the n-th one (or all from the n-th on) fail. Raw blocks carry
   guard bytes and are kept in a table, so that leaks, double releases and writes
   outside a block are seen. Exposed to ctypes: seam_arm, seam_disarm, seam_count,
   seam_fired, seam_live, seam_bad, seam_log, seam_set_fill. */
#include <Python.h>
#include "structmember.h"
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include "numpy/arrayobject.h"

#define SEAM_API __attribute__((visibility("default"))) __attribute__((used))
typedef struct seam_block { struct seam_block *prev, *next; size_t n; uint64_t magic[5]; } seam_block;
#ifdef __SANITIZE_ADDRESS__
#define SEAM_GUARD 0    /* the sanitizer watches the end of the block itself */
#else
#define SEAM_GUARD 32
#endif
#define SEAM_MAGIC 0xfeedc0dedeadbea7ULL
static seam_block seam_head = {&seam_head, &seam_head, 0, {0}};
static long seam_n, seam_at = -1, seam_until = -1, seam_nfired, seam_nlive, seam_nbad;
static char seam_kinds[256];
static unsigned char seam_fill = 0xcb;   /* fresh memory holds garbage */

SEAM_API void seam_arm(long at, long until) { seam_n = 0; seam_at = at; seam_until = until; seam_nfired = 0; }
SEAM_API void seam_set_fill(int c) { seam_fill = (unsigned char)c; }
SEAM_API void seam_disarm(void) { seam_at = seam_until = -1; }
SEAM_API long seam_count(void) { return seam_n; }
SEAM_API long seam_fired(void) { return seam_nfired; }
SEAM_API long seam_live(void) { return seam_nlive; }
SEAM_API const char *seam_log(void) { return seam_kinds; }

static int seam_intact(seam_block *b)
{
    int i; const unsigned char *p = (const unsigned char *)(b + 1) + b->n;
    for (i = 0; i < 5; i++) if (b->magic[i] != SEAM_MAGIC) return 0;
    for (i = 0; i < SEAM_GUARD; i++) if (p[i] != 0xa5) return 0;
    return 1;
}
SEAM_API long seam_bad(void)
{
    seam_block *b;
    long bad = seam_nbad;
    for (b = seam_head.next; b != &seam_head; b = b->next) if (!seam_intact(b)) bad++;
    return bad;
}
static int seam_fail(char kind)
{
    long k = seam_n++;
    int f = seam_at >= 0 && k >= seam_at && k < seam_until;
    if (f && seam_nfired < 255) { seam_kinds[seam_nfired] = kind; seam_kinds[seam_nfired + 1] = 0; }
    seam_nfired += f;
    return f;
}
static void *seam_raw(size_t n, int zero)
{
    seam_block *b = (seam_block *)malloc(sizeof(seam_block) + n + SEAM_GUARD);
    int i;
    if (!b) return NULL;
    b->n = n;
    for (i = 0; i < 5; i++) b->magic[i] = SEAM_MAGIC;
    memset(b + 1, zero ? 0 : seam_fill, n);
    memset((char *)(b + 1) + n, 0xa5, SEAM_GUARD);
    b->next = seam_head.next; b->prev = &seam_head;
    b->next->prev = b; seam_head.next = b;
    seam_nlive++;
    return b + 1;
}
static void *seam_malloc(size_t n) { return seam_fail('m') ? NULL : seam_raw(n, 0); }
static void *seam_calloc(size_t a, size_t b) { return seam_fail('m') ? NULL : seam_raw(a * b, 1); }
static void seam_free(void *p)
{
    seam_block *b, *q;
    if (!p) return;
    b = (seam_block *)p - 1;
    for (q = seam_head.next; q != &seam_head && q != b; q = q->next) ;
    if (q != b) { seam_nbad++; return; }   /* released twice, or never allocated */
    if (!seam_intact(b)) seam_nbad++;
    b->prev->next = b->next; b->next->prev = b->prev;
    seam_nlive--;
    memset(p, 0xdd, b->n);
    free(b);
}
static void *seam_realloc(void *p, size_t n)
{
    void *q;
    size_t old;
    if (!p) return seam_malloc(n);
    if (seam_fail('m')) return NULL;
    q = seam_raw(n, 0);
    if (!q) return NULL;
    old = ((seam_block *)p - 1)->n;
    memcpy(q, p, old < n ? old : n);
    seam_free(p);
    return q;
}
#define SEAM_PY(kind, call) (seam_fail(kind) ? (PyErr_NoMemory(), (void *)0) : (void *)(call))
static PyObject *seam_list_new(Py_ssize_t n) { return (PyObject *)SEAM_PY('l', PyList_New(n)); }
static PyObject *seam_simple_new(int nd, npy_intp *dims, int t) { return (PyObject *)SEAM_PY('a', PyArray_SimpleNew(nd, dims, t)); }
static PyObject *seam_resize(PyArrayObject *a, PyArray_Dims *s, int r, NPY_ORDER o) { return (PyObject *)SEAM_PY('r', PyArray_Resize(a, s, r, o)); }
static PyObject *seam_contiguous(PyObject *o, int t, int a, int b) { return (PyObject *)SEAM_PY('c', PyArray_ContiguousFromObject(o, t, a, b)); }
static PyObject *seam_fromany(PyObject *o, PyArray_Descr *t, int a, int b, int f, PyObject *c)
{
    if (seam_fail('c')) { Py_XDECREF(t); PyErr_NoMemory(); return NULL; }
    return PyArray_FromAny(o, t, a, b, f, c);
}
static void seam_unused(void);
static void (*seam_unused_p)(void) __attribute__((used)) = seam_unused;
static void seam_unused(void)
{
    (void)seam_list_new; (void)seam_simple_new; (void)seam_resize; (void)seam_contiguous;
    (void)seam_fromany; (void)seam_calloc; (void)seam_realloc; (void)seam_free;
    (void)seam_unused_p;
}
#undef PyMem_Malloc
#undef PyMem_Calloc
#undef PyMem_Realloc
#undef PyMem_Free
#undef PyMem_RawMalloc
#undef PyMem_RawCalloc
#undef PyMem_RawRealloc
#undef PyMem_Resize
#undef PyMem_RESIZE
#undef PyMem_RawFree
#undef PyMem_New
#undef PyMem_NEW
#undef PyMem_Del
#undef PyMem_DEL
#undef PyMem_FREE
#undef PyMem_MALLOC
#define PyMem_Malloc seam_malloc
#define PyMem_MALLOC seam_malloc
#define PyMem_Calloc seam_calloc
#define PyMem_Realloc seam_realloc
#define PyMem_Free seam_free
#define PyMem_FREE seam_free
#define PyMem_RawMalloc seam_malloc
#define PyMem_RawCalloc seam_calloc
#define PyMem_RawRealloc seam_realloc
#define PyMem_RawFree seam_free
#define PyMem_New(t, n) ((t *)seam_malloc((size_t)(n) * sizeof(t)))
#define PyMem_NEW(t, n) ((t *)seam_malloc((size_t)(n) * sizeof(t)))
#define PyMem_Resize(p, t, n) ((p) = (t *)seam_realloc(p, (size_t)(n) * sizeof(t)))
#define PyMem_RESIZE PyMem_Resize
#define PyMem_Del seam_free
#define PyMem_DEL seam_free
#define malloc seam_malloc
#define calloc seam_calloc
#define realloc seam_realloc
#define free seam_free
#define PyList_New seam_list_new
#undef PyArray_SimpleNew
#define PyArray_SimpleNew seam_simple_new
#undef PyArray_Resize
#define PyArray_Resize seam_resize
#undef PyArray_ContiguousFromObject
#define PyArray_ContiguousFromObject seam_contiguous
#undef PyArray_FromAny
#define PyArray_FromAny seam_fromany
