"""The memory simulator (native/vmem.c, native/shim.cpp) seen from Python."""
import ctypes
import glob
import importlib.util
import os
import pickle
import select
import signal
import time

from .seams import _real

vmem = None


def boot(cfg):
    """Interpreter preparation for checks that use the 'mem' variant of the extension."""
    global vmem
    from . import bench
    from .util import REPO
    bench.boot(cfg['libdir'], REPO)
    spec = importlib.util.spec_from_file_location('vmem', glob.glob(os.path.join(cfg['libdir'], 'vmem*.so'))[0])
    vmem = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(vmem)
    lib = ctypes.CDLL(glob.glob(os.path.join(cfg['libdir'], 'libcpp*.so'))[0])
    lib.vsim_set_hooks.argtypes = [ctypes.c_void_p] * 3
    lib.vsim_set_hooks.restype = None
    lib.vsim_set_hooks(*vmem.hooks())
    boot.lib = lib


def child(fn, limit=30.0):
    """fn() in a forked process: ('ok', value), ('err', text), ('signal', n) or ('timeout', None)."""
    r, w = os.pipe()
    pid = _real['fork']()
    if pid == 0:
        try:
            _real['close'](r)
            for s in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                signal.signal(s, signal.SIG_DFL)
            import faulthandler
            faulthandler.disable()
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            devnull = os.open('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 2)
            try:
                out = ('ok', fn())
            except BaseException as e:
                import traceback
                out = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            data = pickle.dumps(out, protocol=4)
            while data:
                n = _real['write'](w, data)
                data = data[n:]
        finally:
            _real['_exit'](0)
    _real['close'](w)
    buf, end, late = b'', time.time() + limit, False
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        d = _real['read'](r, 1 << 20)
        if not d:
            break
        buf += d
    _real['close'](r)
    _, st = os.waitpid(pid, 0)
    if late:
        return ('timeout', None)
    if os.WIFSIGNALED(st):
        return ('signal', os.WTERMSIG(st))
    if not buf:
        return ('err', 'no answer')
    return pickle.loads(buf)
