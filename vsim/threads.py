"""The thread simulator (native/vsched.c) seen from Python."""
import ast
import ctypes
import glob
import importlib
import importlib.util
import os
import sys
import threading

from .util import REPO

PREFIX = REPO + '/riptide/'
vs = None
_Lock, _RLock = threading.Lock, threading.RLock


class Deadlock(BaseException):
    pass


class Interrupted(BaseException):
    """Stands for KeyboardInterrupt and the like."""


def _from_riptide():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(PREFIX):
            return True
        f = f.f_back
    return False


class SimLock:
    """A lock created by riptide: waiting is a scheduling decision."""
    n = 0

    def __init__(self, reentrant=False):
        SimLock.n += 1
        self.id, self.owner, self.count, self.re = SimLock.n, None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.re and self.owner == me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or timeout > 0:
                return False
            if vs is None or vs.mine() < 0:
                raise RuntimeError('a lock is never released')
            if not vs.block(self.id):
                raise Deadlock('waits for a lock that is never released')
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None or (self.re and self.owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if vs is not None:
                vs.wake(self.id)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _make_lock():
    return SimLock() if _from_riptide() else _Lock()


def _make_rlock():
    return SimLock(True) if _from_riptide() else _RLock()


def boot(cfg):
    global vs
    from . import bench
    spec = importlib.util.spec_from_file_location('vsched', glob.glob(os.path.join(cfg['libdir'], 'vsched*.so'))[0])
    vs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(vs)
    threading.Lock, threading.RLock = _make_lock, _make_rlock
    bench.boot(cfg['libdir'], REPO)
    import pkgutil
    import riptide
    for m in pkgutil.walk_packages(riptide.__path__, 'riptide.'):
        if '.tests' not in m.name and '.setup' not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    lib = ctypes.CDLL(glob.glob(os.path.join(cfg['libdir'], 'libcpp*.so'))[0])
    lib.vsim_set_point.argtypes = [ctypes.c_void_p]
    lib.vsim_set_point.restype = None
    lib.vsim_set_point(vs.hook())
    boot.lib = lib
    codes()
    # pybind11 looks numpy up on the first call
    import numpy as np
    import riptide.libcpp as L
    x = np.ones(12, 'f4')
    L.rollback(x, 1)
    L.ffa2(x.reshape(3, 4))
    L.downsample(x, 1.5)


_quiet = {}


def quiet_lines(fname):
    """Lines where an interruption would hit the machinery of with, try or an exception handler."""
    if fname not in _quiet:
        out = set()
        try:
            with open(fname) as f:
                tree = ast.parse(f.read())
        except Exception:
            tree = ast.Module([], [])
        tries = tuple(t for t in (getattr(ast, 'Try', None), getattr(ast, 'TryStar', None)) if t)

        def lines(node):
            return range(node.lineno, (node.end_lineno or node.lineno) + 1)
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno if n.body[0].lineno > n.lineno else n.lineno + 1))
                out.add(n.lineno)
            elif isinstance(n, tries):
                out.add(n.lineno)
                for b in n.handlers:
                    out.update(lines(b))
                for b in n.finalbody:
                    out.update(lines(b))
        _quiet[fname] = out
    return _quiet[fname]


class Tracer:
    """One per thread: scheduling points at the lines (or bytecodes) of riptide."""

    def __init__(self):
        self.n = 0            # places where an interruption may strike, so far
        self.at = None
        self.exc = None
        self.hit = None
        self.active = False

    def arm(self, at, exc):
        self.at, self.exc = at, exc


_now = {}                     # thread identifier -> Tracer
_codes = None
M = sys.monitoring
TOOL = 4


def _line(code, line):
    t = _now.get(threading.get_ident())
    if t is None or not t.active:
        return
    if line not in quiet_lines(code.co_filename):
        t.n += 1
        if t.n == t.at:
            t.hit = '%s:%d' % (os.path.relpath(code.co_filename, REPO), line)
            t.at = None
            raise t.exc('injected')
    if not _line.opcodes:
        vs.point()


def _instr(code, offset):
    t = _now.get(threading.get_ident())
    if t is not None and t.active:
        vs.point()


def codes():
    """Every code object of riptide."""
    global _codes
    if _codes is None:
        import gc
        import types
        gc.unfreeze()
        todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType)]
        gc.freeze()
        seen = {}
        while todo:
            c = todo.pop()
            if c.co_filename.startswith(PREFIX) and id(c) not in seen:
                seen[id(c)] = c
                todo += [x for x in c.co_consts if isinstance(x, types.CodeType)]
        _codes = sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
        for c in _codes:
            quiet_lines(c.co_filename)
    return _codes


def instrument(opcodes):
    M.use_tool_id(TOOL, 'vsim')
    M.register_callback(TOOL, M.events.LINE, _line)
    M.register_callback(TOOL, M.events.INSTRUCTION, _instr if opcodes else None)
    _line.opcodes = opcodes
    for c in codes():
        M.set_local_events(TOOL, c, M.events.LINE | (M.events.INSTRUCTION if opcodes else 0))


def run(bodies, tracers, first, mode, seed, prob, switches):
    """Run the bodies in simulated threads; the scheduler's report."""
    vs.start(len(bodies), mode, seed, prob, [list(s) for s in switches])
    errs = []

    def wrap(i, fn):
        _now[threading.get_ident()] = tracers[i]
        vs.enter(i)
        try:
            fn()
        except BaseException as e:
            errs.append(e)
        finally:
            vs.leave()
    ts = [threading.Thread(target=wrap, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
    for t in ts:
        t.start()
    vs.launch(first)
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return vs.report()
