// Linked into the simulator's build of riptide's extension for runs with several threads: while
// native code runs without the interpreter lock, every basic block is a scheduling point.
typedef struct _ts PyThreadState;
extern "C" {
typedef void (*point_t)(void*);
static point_t h_point = nullptr;
static __thread int released = 0;
PyThreadState* __real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState*);

__attribute__((visibility("default"))) void vsim_set_point(point_t f) { h_point = f; }

void __sanitizer_cov_trace_pc(void)
{
    if (released && h_point) h_point(__builtin_return_address(0));
}
PyThreadState* __wrap_PyEval_SaveThread(void)
{
    PyThreadState* t = __real_PyEval_SaveThread();
    released = 1;
    if (h_point) h_point(nullptr);
    return t;
}
void __wrap_PyEval_RestoreThread(PyThreadState* t)
{
    if (h_point) h_point(nullptr);
    released = 0;
    __real_PyEval_RestoreThread(t);
}
}
