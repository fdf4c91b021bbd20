/* Simulated memory: the allocator under the extension module and under numpy arrays.
   Decides which allocation fails, puts guard pages around blocks, checks canaries,
   keeps count of what is live.  Single-threaded by design. */
#define PY_SSIZE_T_CLEAN
#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#define NPY_TARGET_VERSION NPY_2_0_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>
#include <sys/mman.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define PAGE 4096
#define TAB 65536
#define QUAR 128
enum { EMPTY = 0, LIVE = 1, DEAD = 2, TOMB = 3 };

typedef struct { char *user; char *base; size_t total, size; int state; int np; long serial; } Blk;
static Blk tab[TAB];
static long used;
static int quar[QUAR], quar_n, quar_i;

static struct {
    int guard, armed;
    unsigned mask;            /* 1: numpy, 2: kernel */
    long count, fail_at, fail_from, failed, live, bad, serial, dfree;
    size_t minsize, bytes, cap;
    unsigned char fill;
    long sizes[64];
    char where[160];
} S;

static size_t slot(const char *p)
{
    uint64_t h = (uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull;
    return (size_t)(h >> 40) & (TAB - 1);
}

static Blk *find(const void *p)
{
    size_t i = slot(p);
    for (long k = 0; k < TAB; ++k, i = (i + 1) & (TAB - 1))
    {
        if (tab[i].state == EMPTY) return NULL;
        if (tab[i].user == p && (tab[i].state == LIVE || tab[i].state == DEAD)) return &tab[i];
    }
    return NULL;
}

static void complain(const char *what, Blk *b, long off)
{
    if (!S.bad++)
        snprintf(S.where, sizeof S.where, "%s: %s block of %zu bytes, offset %ld", what, b->np ? "array" : "kernel", b->size, off);
}

static void check(Blk *b)
{
    char *lo = b->base + PAGE, *hi = b->base + b->total - PAGE;
    char *q = b->user < lo + 256 ? lo : b->user - 256;     /* the nearest bytes suffice */
    for (; q < b->user; ++q) if ((unsigned char)*q != 0xFB) { complain("write before", b, q - b->user); break; }
    for (q = b->user + b->size; q < hi; ++q) if ((unsigned char)*q != 0xFD) { complain("write after", b, q - b->user); break; }
}

static void *galloc(size_t n, size_t align, int zero, int np)
{
    if (align < 16) align = 16;
    if (used > TAB / 2) return NULL;
    if (n > (size_t)1 << 40) return NULL;
    size_t body = (n + align - 1) / align * align;
    size_t pages = (body + PAGE - 1) / PAGE;
    if (!pages) pages = 1;
    size_t total = (pages + 2) * PAGE;
    char *base = mmap(NULL, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) return NULL;
    mprotect(base, PAGE, PROT_NONE);
    mprotect(base + total - PAGE, PAGE, PROT_NONE);
    char *user = base + total - PAGE - body;
    char *lo = base + PAGE;
    size_t pre = user - lo;
    if (pre > 256) { lo = user - 256; pre = 256; }
    memset(lo, 0xFB, pre);
    memset(user + n, 0xFD, body - n);
    if (!zero) memset(user, S.fill, n);
    size_t i = slot(user);
    while (tab[i].state == LIVE || tab[i].state == DEAD) i = (i + 1) & (TAB - 1);
    if (tab[i].state == EMPTY) ++used;
    tab[i] = (Blk){user, base, total, n, LIVE, np, S.serial++};
    S.live++;
    S.bytes += n;
    return user;
}

static void reap(Blk *b)
{
    munmap(b->base, b->total);
    b->state = TOMB;
}

static int gfree(void *p)
{
    Blk *b = find(p);
    if (!b) return 0;
    if (b->state == DEAD) { S.dfree++; complain("double free of", b, 0); return 1; }
    check(b);
    S.live--;
    S.bytes -= b->size;
    b->state = DEAD;
    mprotect(b->base, b->total, PROT_NONE);
    if (quar_n == QUAR) { Blk *o = &tab[quar[quar_i]]; if (o->state == DEAD) reap(o); } else ++quar_n;
    quar[quar_i] = (int)(b - tab);
    quar_i = (quar_i + 1) % QUAR;
    return 1;
}

static int decide(size_t n, unsigned who)
{
    if (!S.armed || !(S.mask & who) || n < S.minsize) return 0;
    if (S.cap && n > S.cap) { S.failed++; return 1; }
    if (S.count < 64) S.sizes[S.count] = (long)n;
    S.count++;
    if (S.count == S.fail_at || (S.fail_from && S.count >= S.fail_from)) { S.failed++; return 1; }
    return 0;
}

static void *get(size_t n, size_t align, int zero, unsigned who)
{
    if (decide(n, who)) return NULL;
    if (S.guard) return galloc(n, align, zero, who == 1);
    if (align > 16)
    {
        void *p = NULL;
        if (posix_memalign(&p, align, n ? n : 1)) return NULL;
        if (zero) memset(p, 0, n);
        return p;
    }
    return zero ? calloc(n ? n : 1, 1) : malloc(n ? n : 1);
}

/* ---- under the extension ---- */
static void *k_alloc(size_t n, size_t align, int zero) { return get(n, align, zero, 2); }
static int k_free(void *p) { return gfree(p); }
static long k_size(void *p) { Blk *b = find(p); return b ? (long)b->size : -1; }

/* ---- under numpy ---- */
static void *n_malloc(void *c, size_t n) { (void)c; return get(n, 16, 0, 1); }
static void *n_calloc(void *c, size_t a, size_t b)
{
    size_t n;
    (void)c;
    if (__builtin_mul_overflow(a, b, &n)) return NULL;
    return get(n, 16, 1, 1);
}
static void n_free(void *c, void *p, size_t n)
{
    (void)c; (void)n;
    if (p && !gfree(p)) free(p);
}
static void *n_realloc(void *c, void *p, size_t n)
{
    Blk *b;
    if (!p) return n_malloc(c, n);
    if (decide(n, 1)) return NULL;
    b = find(p);
    if (!b) return realloc(p, n ? n : 1);
    void *q = galloc(n, 16, 0, 1);
    if (!q) return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    gfree(p);
    return q;
}
static PyDataMem_Handler handler = {"vsim", 1, {NULL, n_malloc, n_calloc, n_realloc, n_free}};
static PyObject *capsule, *before;

static PyObject *install(PyObject *self, PyObject *a)
{
    PyObject *old;
    if (!capsule) capsule = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!capsule) return NULL;
    old = PyDataMem_SetHandler(capsule);
    if (!old) return NULL;
    if (!before) before = old; else Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *uninstall(PyObject *self, PyObject *a)
{
    PyObject *old;
    if (before && (old = PyDataMem_SetHandler(before))) Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *guard(PyObject *self, PyObject *a)
{
    int on, fill;
    if (!PyArg_ParseTuple(a, "ii", &on, &fill)) return NULL;
    S.guard = on;
    S.fill = (unsigned char)fill;
    Py_RETURN_NONE;
}

static PyObject *arm(PyObject *self, PyObject *a)
{
    unsigned mask;
    long at, from, minsize, cap = 0;
    if (!PyArg_ParseTuple(a, "Illl|l", &mask, &at, &from, &minsize, &cap)) return NULL;
    S.mask = mask; S.fail_at = at; S.fail_from = from; S.minsize = (size_t)minsize; S.cap = (size_t)cap;
    S.count = S.failed = 0;
    S.armed = 1;
    Py_RETURN_NONE;
}

static PyObject *disarm(PyObject *self, PyObject *a)
{
    S.armed = 0;
    long n = S.count < 64 ? S.count : 64;
    PyObject *l = PyList_New(n);
    for (long i = 0; i < n; ++i) PyList_SET_ITEM(l, i, PyLong_FromLong(S.sizes[i]));
    return Py_BuildValue("{s:l,s:l,s:N}", "count", S.count, "failed", S.failed, "sizes", l);
}

static PyObject *state(PyObject *self, PyObject *a)
{
    for (long i = 0; i < TAB; ++i) if (tab[i].state == LIVE) check(&tab[i]);
    return Py_BuildValue("{s:l,s:k,s:l,s:s}", "live", S.live, "bytes", (unsigned long)S.bytes, "bad", S.bad, "where", S.where);
}

static PyObject *kinds(PyObject *self, PyObject *a)
{
    long np = 0, k = 0;
    for (long i = 0; i < TAB; ++i) if (tab[i].state == LIVE) { if (tab[i].np) ++np; else ++k; }
    return Py_BuildValue("ll", np, k);
}

static PyObject *hooks(PyObject *self, PyObject *a)
{
    return Py_BuildValue("KKK", (unsigned long long)(uintptr_t)k_alloc, (unsigned long long)(uintptr_t)k_free,
                         (unsigned long long)(uintptr_t)k_size);
}

static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""}, {"uninstall", uninstall, METH_NOARGS, ""}, {"guard", guard, METH_VARARGS, ""},
    {"arm", arm, METH_VARARGS, ""}, {"disarm", disarm, METH_NOARGS, ""}, {"state", state, METH_NOARGS, ""},
    {"kinds", kinds, METH_NOARGS, ""}, {"hooks", hooks, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "vmem", "", -1, methods};

PyMODINIT_FUNC PyInit_vmem(void)
{
    import_array();
    return PyModule_Create(&def);
}
