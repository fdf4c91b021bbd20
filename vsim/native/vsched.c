/* The thread scheduler: real threads in lock-step, one runs at a time, and a seeded policy
   decides at every scheduling point (a source line or bytecode of riptide, a basic block of
   its native code that runs without the interpreter lock) which one continues. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <semaphore.h>
#include <stdint.h>

#define MAXT 16
#define MAXL 65536
enum { UNBORN, RUN, BLOCKED, DONE };

static struct {
    int n, cur, on, mode, poison;
    int status[MAXT];
    long lock[MAXT];
    long points[MAXT], native[MAXT];
    sem_t gate[MAXT];
    long step, nsw, sw_step[MAXL];
    int sw_from[MAXL], sw_to[MAXL];
    uint64_t hash, rng;
    double prob;
    long nlist, lstep[MAXL], li;
    int lto[MAXL];
} S;
static __thread int me = -1;

static uint64_t rnd(void)
{
    S.rng ^= S.rng << 13; S.rng ^= S.rng >> 7; S.rng ^= S.rng << 17;
    return S.rng * 0x2545F4914F6CDD1Dull;
}

static int runnable(int except)
{
    int k = 0;
    for (int i = 0; i < S.n; ++i) if (i != except && S.status[i] == RUN) ++k;
    return k;
}

static int next_after(int i)
{
    for (int k = 1; k <= S.n; ++k) { int j = (i + k) % S.n; if (S.status[j] == RUN) return j; }
    return -1;
}

/* the thread to switch to at this point, or -1 */
static int choose(void)
{
    int to = -1;
    if (S.mode == 1)
    {
        if ((rnd() >> 11) * (1.0 / 9007199254740992.0) >= S.prob) return -1;
        int k = runnable(me);
        if (!k) return -1;
        k = (int)(rnd() % (uint64_t)k);
        for (int i = 0; i < S.n; ++i) if (i != me && S.status[i] == RUN && k-- == 0) return i;
        return -1;
    }
    while (S.li < S.nlist && S.lstep[S.li] <= S.step) to = S.lto[S.li++];
    if (to < 0) return -1;
    to %= S.n;
    if (S.status[to] != RUN) to = next_after(me);
    return to == me ? -1 : to;
}

static void note(int to, uint64_t where)
{
    if (S.nsw < MAXL) { S.sw_step[S.nsw] = S.step; S.sw_from[S.nsw] = me; S.sw_to[S.nsw] = to; ++S.nsw; }
    S.hash = (S.hash ^ (where * 31 + (uint64_t)to + 1)) * 0x100000001B3ull;
    S.hash ^= S.hash >> 29;
}

static void go(int to)
{
    int my = me;
    S.cur = to;
    sem_post(&S.gate[to]);
    sem_wait(&S.gate[my]);
}

static void native_point(void *pc)
{
    if (!S.on || me < 0 || PyGILState_Check()) return;
    S.step++; S.points[me]++; S.native[me]++;
    int to = choose();
    if (to < 0) return;
    note(to, S.points[me]);
    go(to);
}

static PyObject *start(PyObject *self, PyObject *a)      /* n, mode, seed, prob, [(step, to)] */
{
    int n, mode; unsigned long long seed; double prob; PyObject *l;
    if (!PyArg_ParseTuple(a, "iiKdO", &n, &mode, &seed, &prob, &l)) return NULL;
    memset(&S, 0, sizeof S);
    S.n = n; S.mode = mode; S.rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; S.prob = prob;
    if (!S.rng) S.rng = 1;
    for (int i = 0; i < 4; ++i) rnd();
    S.hash = 1469598103934665603ull;
    S.nlist = PyList_Size(l);
    if (S.nlist > MAXL) S.nlist = MAXL;
    for (long i = 0; i < S.nlist; ++i)
    {
        PyObject *p = PyList_GetItem(l, i);
        S.lstep[i] = PyLong_AsLong(PySequence_GetItem(p, 0));
        S.lto[i] = (int)PyLong_AsLong(PySequence_GetItem(p, 1));
    }
    for (int i = 0; i < n; ++i) { sem_init(&S.gate[i], 0, 0); S.status[i] = RUN; }
    Py_RETURN_NONE;
}

static PyObject *enter(PyObject *self, PyObject *a)
{
    int i;
    if (!PyArg_ParseTuple(a, "i", &i)) return NULL;
    me = i;
    Py_BEGIN_ALLOW_THREADS
    sem_wait(&S.gate[i]);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}

static PyObject *launch(PyObject *self, PyObject *a)
{
    int i;
    if (!PyArg_ParseTuple(a, "i", &i)) return NULL;
    S.on = 1; S.cur = i;
    sem_post(&S.gate[i]);
    Py_RETURN_NONE;
}

static PyObject *point(PyObject *self, PyObject *a)
{
    if (!S.on || me < 0) Py_RETURN_NONE;
    S.step++; S.points[me]++;
    int to = choose();
    if (to >= 0)
    {
        note(to, (uint64_t)S.points[me]);
        Py_BEGIN_ALLOW_THREADS
        go(to);
        Py_END_ALLOW_THREADS
    }
    Py_RETURN_NONE;
}

/* a switch nobody decides: the running thread ends or waits */
static int forced(void)
{
    int to = next_after(me);
    if (to < 0)
    {
        for (int i = 0; i < S.n; ++i) if (S.status[i] == BLOCKED) { S.poison = 1; to = i; break; }
    }
    return to;
}

static PyObject *leave(PyObject *self, PyObject *a)
{
    if (me < 0) Py_RETURN_NONE;
    S.status[me] = DONE;
    int to = forced();
    if (to >= 0) { S.status[to] = RUN; S.cur = to; sem_post(&S.gate[to]); }
    else S.on = 0;
    me = -1;
    Py_RETURN_NONE;
}

static PyObject *block(PyObject *self, PyObject *a)     /* wait for a lock; False when nothing can ever release it */
{
    long id;
    if (!PyArg_ParseTuple(a, "l", &id)) return NULL;
    if (me < 0) Py_RETURN_TRUE;
    S.status[me] = BLOCKED; S.lock[me] = id;
    int to = forced();
    if (to == me) { S.status[me] = RUN; Py_RETURN_FALSE; }
    S.status[to] = RUN;
    Py_BEGIN_ALLOW_THREADS
    go(to);
    Py_END_ALLOW_THREADS
    if (S.poison) Py_RETURN_FALSE;
    Py_RETURN_TRUE;
}

static PyObject *wake(PyObject *self, PyObject *a)
{
    long id;
    if (!PyArg_ParseTuple(a, "l", &id)) return NULL;
    for (int i = 0; i < S.n; ++i) if (S.status[i] == BLOCKED && S.lock[i] == id) S.status[i] = RUN;
    Py_RETURN_NONE;
}

static PyObject *mine(PyObject *self, PyObject *a) { return PyLong_FromLong(me); }

static PyObject *report(PyObject *self, PyObject *a)
{
    PyObject *l = PyList_New(0), *p = PyList_New(0), *nat = PyList_New(0);
    for (long i = 0; i < S.nsw; ++i)
    {
        PyObject *t = Py_BuildValue("lii", S.sw_step[i], S.sw_from[i], S.sw_to[i]);
        PyList_Append(l, t); Py_DECREF(t);
    }
    for (int i = 0; i < S.n; ++i)
    {
        PyObject *t = PyLong_FromLong(S.points[i]); PyList_Append(p, t); Py_DECREF(t);
        t = PyLong_FromLong(S.native[i]); PyList_Append(nat, t); Py_DECREF(t);
    }
    return Py_BuildValue("{s:N,s:N,s:N,s:l,s:K,s:i}", "switches", l, "points", p, "native", nat, "steps", S.step,
                         "hash", (unsigned long long)S.hash, "deadlock", S.poison);
}

static PyObject *hook(PyObject *self, PyObject *a) { return PyLong_FromUnsignedLongLong((uintptr_t)native_point); }

static PyMethodDef methods[] = {
    {"start", start, METH_VARARGS, ""}, {"enter", enter, METH_VARARGS, ""}, {"launch", launch, METH_VARARGS, ""},
    {"point", point, METH_NOARGS, ""}, {"leave", leave, METH_NOARGS, ""}, {"block", block, METH_VARARGS, ""},
    {"wake", wake, METH_VARARGS, ""}, {"mine", mine, METH_NOARGS, ""}, {"report", report, METH_NOARGS, ""},
    {"hook", hook, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "vsched", "", -1, methods};
PyMODINIT_FUNC PyInit_vsched(void) { return PyModule_Create(&def); }
