"""
Seams: every source of nondeterminism the riptide pipeline touches, routed to the
simulator.  `install()` must run before riptide is imported.  While STATE.chan is
None (the shard process itself, or a process forked by something the simulator
does not know) every seam is transparent.

One simulated process = one real forked process that runs the real code and stops
at every seam ("op"): it sends the op to the simulator and waits for the reply,
which says when it may go on and what fault, if any, it meets.  Exactly one
simulated process runs at any time.
"""
import builtins
import errno as _errno
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import pickle
import random
import socket
import struct
import sys
import threading
import time

_real = {}
R_open = builtins.open
R_TextIOWrapper = io.TextIOWrapper
for _n in ('open', 'read', 'write', 'close', 'fsync', 'ftruncate', 'stat', 'lstat', 'remove', 'unlink',
           'rename', 'replace', 'mkdir', 'rmdir', 'link', 'symlink', 'truncate', 'chmod', 'utime',
           'listdir', 'scandir', 'getpid', 'urandom', 'fork', '_exit', 'kill', 'dup', 'lseek', 'fdatasync',
           'access', 'system'):
    _real[_n] = getattr(os, _n)
R_time = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns',
                                        'perf_counter_ns', 'sleep', 'localtime', 'gmtime', 'strftime', 'ctime')}


class State:
    chan = None          # channel to the simulator, or None (passive)
    chans = []           # all pre-created client sockets of this run
    root = None          # scratch root, no trailing slash
    vpid = None
    fakepid = 4242
    busy = False
    thread = None
    wall = 0.0
    mono = 0.0
    tick = 0
    openfiles = {}
    fdmap = {}
    deferred = []
    bufsize = 8192
    owner = None
    kernel_stub = None   # callable(name, real, args, kw) or None
    foreign = []
    locks = 0
    pools = None
    keep = None          # an object that outlives the run


STATE = State()


class Chan:
    def __init__(self, sock):
        self.s = sock

    def call(self, msg):
        data = pickle.dumps(msg, protocol=4)
        self.s.sendall(struct.pack('<I', len(data)) + data)
        return recv_msg(self.s)


def recv_exact(s, n):
    buf = bytearray()
    while len(buf) < n:
        b = s.recv(n - len(buf))
        if not b:
            _real['_exit'](70)
        buf += b
    return bytes(buf)


def recv_msg(s):
    n, = struct.unpack('<I', recv_exact(s, 4))
    return pickle.loads(recv_exact(s, n))


def active():
    return STATE.chan is not None and not STATE.busy and threading.get_ident() == STATE.thread


def sim(kind, rel='', **x):
    """Send one op to the simulator and wait for the go-ahead.  Raises injected errors."""
    if not active():
        return {}
    path = x.pop('_path', None)
    while STATE.deferred:
        STATE.deferred.pop(0)()
    STATE.busy = True
    try:
        r = STATE.chan.call((kind, rel, x))
    finally:
        STATE.busy = False
    STATE.wall, STATE.mono, STATE.tick = r['wall'], r['mono'], 0
    do = r.get('do')
    if do:
        if do[0] == 'errno' and kind not in ('read', 'write', 'close'):
            raise OSError(do[1], os.strerror(do[1]), path)
        if do[0] == 'mem':
            raise MemoryError('simulated allocation failure')
    return r


def relpath(path):
    """Path relative to the scratch root, or None when it lies outside."""
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.normpath(os.path.join(os.getcwd(), p))
    root = STATE.root
    if p == root:
        return '.'
    if p.startswith(root + '/'):
        return p[len(root) + 1:]
    return None


ALLOWED_FOREIGN = ('/dev/null', '/dev/tty', '/dev/stdout', '/dev/stderr', '/proc/self')


def foreign(path, what):
    """A write-type operation outside the scratch root: recorded, never performed."""
    p = os.fsdecode(os.fspath(path)) if not isinstance(path, int) else str(path)
    if p.startswith(ALLOWED_FOREIGN):
        return False
    sim('foreign', p, what=what)
    return True


# ---------------------------------------------------------------- files ----

class SimRaw(io.RawIOBase):
    """Raw file whose reads, writes and close are simulator ops on a real file."""

    def __init__(self, fd, rel, path, mode, readable, writable):
        super().__init__()
        self._fd = fd
        self._rel = rel
        self.name = path
        self.mode = mode
        self._r = readable
        self._w = writable
        self._pend = None
        self._vpid = STATE.vpid
        STATE.openfiles[id(self)] = rel

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        f = sys._getframe(1)
        if f.f_globals.get('__name__', '').split('.')[0] == 'PIL':
            raise io.UnsupportedOperation('fileno')
        return self._fd

    def _read(self, n):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        r = sim('read', self._rel, n=n)
        do = r.get('do')
        if do:
            if do[0] == 'errno':
                raise OSError(do[1], os.strerror(do[1]))
            if do[0] == 'short':
                n = max(1, min(n, do[1]))
        return _real['read'](self._fd, n)

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        data = self._read(len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            d = self._read(65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        n = len(b)
        if self._pend is not None:
            e = self._pend
            raise OSError(e, os.strerror(e))
        r = sim('write', self._rel, n=n)
        do = r.get('do')
        if do:
            if do[0] == 'errno':
                k = min(n, do[2]) if len(do) > 2 else 0
                if k > 0:
                    # the part that fitted is written, the next attempt fails
                    self._pend = do[1]
                    return _real['write'](self._fd, b[:k])
                raise OSError(do[1], os.strerror(do[1]))
            if do[0] == 'short':
                k = max(1, min(n, do[1]))
                return _real['write'](self._fd, b[:k])
            if do[0] == 'torn':
                k = max(0, min(n, do[1]))
                if k:
                    _real['write'](self._fd, b[:k])
                sim('torn', self._rel)
        return _real['write'](self._fd, b)

    def seek(self, pos, whence=0):
        return _real['lseek'](self._fd, pos, whence)

    def tell(self):
        return _real['lseek'](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        sim('truncate', self._rel, n=size)
        _real['ftruncate'](self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        err = None
        try:
            if self._w and self._vpid == STATE.vpid:
                r = sim('close', self._rel)
                do = r.get('do')
                if do and do[0] == 'errno':
                    err = OSError(do[1], os.strerror(do[1]))
        finally:
            fd, self._fd = self._fd, -1
            STATE.openfiles.pop(id(self), None)
            STATE.fdmap.pop(fd, None)
            super().close()
            if fd >= 0:
                _real['close'](fd)
        if err is not None:
            raise err


def _flags(mode):
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in base
    c = base.replace('+', '')
    if c == 'r':
        return (os.O_RDWR if plus else os.O_RDONLY), True, plus
    if c == 'w':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC, plus, True
    if c == 'x':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL, plus, True
    if c == 'a':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND, plus, True
    raise ValueError('invalid mode: %r' % mode)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not active() or STATE.root is None:
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int) and not isinstance(file, bool):
        if file not in STATE.fdmap or not closefd:
            return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, path, rel = file, file, STATE.fdmap[file]
        flags, readable, writable = _flags(mode)
    else:
        path = os.fspath(file)
        rel = relpath(path)
        try:
            flags, readable, writable = _flags(mode)
        except ValueError:
            return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if rel is None:
            if writable and foreign(path, 'open ' + mode):
                spill = os.path.join(STATE.root, '_foreign')
                os.makedirs(spill, exist_ok=True)
                return R_open(os.path.join(spill, 'f%d' % len(STATE.foreign)), mode, buffering, encoding,
                              errors, newline)
            return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        sim('open', rel, mode=mode.replace('t', ''), _path=path)
        if opener is not None:
            fd = opener(path, flags | os.O_CLOEXEC)
        else:
            fd = _real['open'](path, flags | os.O_CLOEXEC, 0o666)
        import stat as _stat
        if _stat.S_ISDIR(os.fstat(fd).st_mode):
            _real['close'](fd)
            raise IsADirectoryError(_errno.EISDIR, os.strerror(_errno.EISDIR), path)
        if 'a' in mode:
            _real['lseek'](fd, 0, 2)
    binary = 'b' in mode
    raw = SimRaw(fd, rel, path, mode, readable, writable)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1 and not binary
        size = buffering if buffering > 1 else STATE.bufsize
        if readable and writable:
            buf = io.BufferedRandom(raw, size)
        elif writable:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        txt = R_TextIOWrapper(buf, io.text_encoding(encoding) if encoding is None else encoding,
                              errors, newline, line_buffering=line)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


# ------------------------------------------------------------ os functions ----

def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not active() or STATE.root is None or dir_fd is not None:
        return _real['open'](path, flags, mode) if dir_fd is None else _real['open'](path, flags, mode, dir_fd=dir_fd)
    rel = relpath(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if rel is None:
        if writing and foreign(path, 'os.open'):
            spill = os.path.join(STATE.root, '_foreign')
            _real['mkdir'](spill) if not os.path.isdir(spill) else None
            return _real['open'](os.path.join(spill, 'o'), flags, mode)
        return _real['open'](path, flags, mode)
    sim('open', rel, mode='fd-w' if writing else 'fd-r', _path=path)
    fd = _real['open'](path, flags, mode)
    STATE.fdmap[fd] = rel
    return fd


def _os_read(fd, n):
    if active() and fd in STATE.fdmap:
        r = sim('read', STATE.fdmap[fd], n=n)
        do = r.get('do')
        if do and do[0] == 'errno':
            raise OSError(do[1], os.strerror(do[1]))
        if do and do[0] == 'short':
            n = max(1, min(n, do[1]))
    return _real['read'](fd, n)


def _os_write(fd, data):
    if active() and fd in STATE.fdmap:
        data = bytes(data)
        r = sim('write', STATE.fdmap[fd], n=len(data))
        do = r.get('do')
        if do and do[0] == 'errno':
            raise OSError(do[1], os.strerror(do[1]))
        if do and do[0] == 'short':
            data = data[:max(1, do[1])]
        if do and do[0] == 'torn':
            if do[1]:
                _real['write'](fd, data[:do[1]])
            sim('torn', STATE.fdmap[fd])
    return _real['write'](fd, data)


def _os_close(fd):
    if active() and fd in STATE.fdmap:
        rel = STATE.fdmap.pop(fd)
        r = sim('close', rel)
        _real['close'](fd)
        do = r.get('do')
        if do and do[0] == 'errno':
            raise OSError(do[1], os.strerror(do[1]))
        return
    return _real['close'](fd)


def _mk_fd_op(name):
    real = _real[name]

    def f(fd, *a, **k):
        if active():
            n = fd if isinstance(fd, int) else fd.fileno()
            rel = STATE.fdmap.get(n)
            if rel is None:
                rel = next((r for r in [_fd_rel(n)] if r), None)
            if rel is not None:
                sim(name, rel)
        return real(fd, *a, **k)
    f.__name__ = name
    return f


def _fd_rel(n):
    try:
        p = os.readlink('/proc/self/fd/%d' % n)
    except OSError:
        return None
    return relpath(p) if STATE.root else None


def _mk_path_op(name, npaths=1, writes=True, result=None):
    real = _real[name]

    def f(*a, **k):
        if not active() or STATE.root is None or not a or k.get('dir_fd') is not None:
            return real(*a, **k)
        if isinstance(a[0], int):
            return real(*a, **k)
        rels = []
        for p in a[:npaths]:
            rels.append(relpath(p))
        if writes and any(r is None for r in rels):
            bad = [p for p, r in zip(a, rels) if r is None]
            if not (name == 'symlink' and rels[-1] is not None):
                foreign(bad[0], name)
                return None
        if rels[0] is None and name != 'symlink':
            return real(*a, **k)
        x = {}
        if npaths == 2:
            x['to'] = rels[1]
        sim(name, rels[0] or '?', _path=a[0], **x)
        out = real(*a, **k)
        return result(out) if result else out
    f.__name__ = name
    return f


def _listdir(*a, **k):
    if not active() or STATE.root is None:
        return _real['listdir'](*a, **k)
    rel = relpath(a[0]) if a and not isinstance(a[0], int) else (relpath('.') if not a else None)
    if rel is None:
        return _real['listdir'](*a, **k)
    r = sim('listdir', rel)
    out = sorted(_real['listdir'](*a, **k))
    random.Random(r.get('seed', 0)).shuffle(out)
    return out


class _Scan:
    def __init__(self, it, seed):
        ents = sorted(it, key=lambda e: e.name)
        random.Random(seed).shuffle(ents)
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(*a, **k):
    if not active() or STATE.root is None:
        return _real['scandir'](*a, **k)
    rel = relpath(a[0]) if a and not isinstance(a[0], int) else (relpath('.') if not a else None)
    if rel is None:
        return _real['scandir'](*a, **k)
    r = sim('listdir', rel)
    with _real['scandir'](*a, **k) as it:
        return _Scan(it, r.get('seed', 0))


def _stat(path, *a, **k):
    if active() and STATE.root is not None and not isinstance(path, int) and not k:
        rel = relpath(path)
        if rel is not None:
            sim('stat', rel, _path=path)
    return _real['stat'](path, *a, **k)


# ------------------------------------------------------------ time etc. ----

def _tick():
    STATE.tick += 1
    return STATE.tick * 1e-6


def _time():
    return STATE.wall + _tick() if STATE.chan is not None else R_time['time']()


def _time_ns():
    return int(_time() * 1e9)


def _monotonic():
    return STATE.mono + _tick() if STATE.chan is not None else R_time['monotonic']()


def _monotonic_ns():
    return int(_monotonic() * 1e9)


def _perf():
    return STATE.mono + _tick() if STATE.chan is not None else R_time['perf_counter']()


def _perf_ns():
    return int(_perf() * 1e9)


def _sleep(s):
    if active():
        sim('sleep', '', s=float(s))
    elif STATE.chan is None:
        R_time['sleep'](s)


def _localtime(secs=None):
    return R_time['localtime'](_time() if secs is None and STATE.chan is not None else secs)


def _gmtime(secs=None):
    return R_time['gmtime'](_time() if secs is None and STATE.chan is not None else secs)


def _strftime(fmt, t=None):
    if t is None:
        return R_time['strftime'](fmt, _localtime())
    return R_time['strftime'](fmt, t)


def _ctime(secs=None):
    return R_time['ctime'](_time() if secs is None and STATE.chan is not None else secs)


def _getpid():
    return STATE.fakepid if STATE.chan is not None else _real['getpid']()


def _urandom(n):
    if STATE.chan is not None:
        return random.getrandbits(8 * n).to_bytes(n, 'little') if n else b''
    return _real['urandom'](n)


# ------------------------------------------------------------ numpy ----

def _mk_fromfile(np):
    real = np.fromfile

    def fromfile(file, dtype=float, count=-1, sep='', offset=0, **kw):
        """numpy.fromfile as a simulator-visible operation (binary mode): same
        results, including what numpy does when the underlying read fails part
        way (a short array, no error)."""
        is_raw = False
        raw = None
        if active() and STATE.root is not None and not isinstance(file, int):
            if isinstance(file, (str, bytes, os.PathLike)):
                is_raw = relpath(file) is not None
            else:
                raw = getattr(file, 'raw', file)
                is_raw = isinstance(raw, SimRaw)
        if not is_raw or sep != '' or kw:
            return real(file, dtype, count, sep, offset, **kw)
        dt = np.dtype(dtype)
        own = False
        if isinstance(file, (str, bytes, os.PathLike)):
            rel = relpath(file)
            sim('open', rel, mode='rb', _path=file)
            fd = _real['open'](file, os.O_RDONLY | os.O_CLOEXEC)
            raw = SimRaw(fd, rel, file, 'rb', True, False)
            own = True
            start = 0
        else:
            start = file.tell()
        try:
            start += offset
            size = os.fstat(raw._fd).st_size
            want = max(0, (size - start)) // dt.itemsize if count < 0 else count
            nbytes = want * dt.itemsize
            raw.seek(start)
            buf = bytearray()
            while len(buf) < nbytes:
                try:
                    d = raw._read(min(nbytes - len(buf), 1 << 20))
                except OSError as e:
                    if e.errno == _errno.EINTR:
                        continue
                    break      # fread() stops; numpy does not look at ferror()
                if not d:
                    break
                buf += d
            n = len(buf) // dt.itemsize
            arr = np.frombuffer(bytes(buf[:n * dt.itemsize]), dtype=dt).copy()
            if not own:
                file.seek(start + len(buf))
            return arr
        finally:
            if own:
                raw.close()
    fromfile.__doc__ = real.__doc__
    fromfile.__wrapped__ = real
    return fromfile


# ------------------------------------------------------------ imports ----

class _Finder(importlib.abc.MetaPathFinder):
    """riptide from /repo's working tree; libcpp from the fresh build, each of
    its functions behind a seam."""

    def __init__(self, repo, libdir):
        self.repo, self.libdir = repo, libdir

    def find_spec(self, name, path=None, target=None):
        if name == 'riptide':
            p = os.path.join(self.repo, 'riptide')
            return importlib.util.spec_from_file_location(name, os.path.join(p, '__init__.py'),
                                                          submodule_search_locations=[p])
        if name == 'riptide.libcpp':
            import glob
            f = glob.glob(os.path.join(self.libdir, 'libcpp*.so'))[0]
            spec = importlib.util.spec_from_file_location(name, f)
            spec.loader = _LibLoader(name, f)
            return spec
        if name == 'riptide._version' and not os.path.exists(os.path.join(self.repo, 'riptide/_version.py')):
            return importlib.util.spec_from_loader(name, _VersionLoader())
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        mod.version = '0.2.5'
        mod.__version__ = '0.2.5'


class _LibLoader(importlib.machinery.ExtensionFileLoader):
    def exec_module(self, module):
        super().exec_module(module)
        for n in list(vars(module)):
            f = getattr(module, n)
            if callable(f) and not n.startswith('_'):
                setattr(module, n, _kernel(n, f))


def _kernel(name, real):
    def call(*a, **k):
        if STATE.chan is not None:
            sim('kernel', name)
        stub = STATE.kernel_stub
        if stub is not None:
            return stub(name, real, a, k)
        return real(*a, **k)
    call.__name__ = name
    call.__qualname__ = name
    call.__doc__ = real.__doc__
    call.__wrapped_kernel__ = real
    return call


def _after_fork_in_child():
    # a process the simulator did not create runs outside the simulation
    if STATE.owner != 'forking':
        STATE.chan = None


_installed = False


def install(repo, libdir):
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(repo, libdir))
    builtins.open = sim_open
    io.open = sim_open
    import _io  # noqa: F401  (left alone: used by importlib)
    os.open, os.read, os.write, os.close = _os_open, _os_read, _os_write, _os_close
    for n in ('fsync', 'fdatasync', 'ftruncate'):
        setattr(os, n, _mk_fd_op(n))
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate', 'chmod', 'utime'):
        setattr(os, n, _mk_path_op(n))
    for n in ('rename', 'replace', 'link', 'symlink'):
        setattr(os, n, _mk_path_op(n, npaths=2))
    os.listdir, os.scandir, os.stat = _listdir, _scandir, _stat
    os.getpid, os.urandom = _getpid, _urandom
    time.time, time.time_ns = _time, _time_ns
    time.monotonic, time.monotonic_ns = _monotonic, _monotonic_ns
    time.perf_counter, time.perf_counter_ns = _perf, _perf_ns
    time.sleep = _sleep
    time.localtime, time.gmtime, time.strftime, time.ctime = _localtime, _gmtime, _strftime, _ctime
    import shutil
    for flag in ('_use_fd_functions', '_USE_CP_SENDFILE'):
        if hasattr(shutil, flag):
            setattr(shutil, flag, False)   # rmtree by path, through the seams
    os.register_at_fork(after_in_child=_after_fork_in_child)
    import numpy as np
    np.fromfile = _mk_fromfile(np)
    from . import simpool
    simpool.install()


def socketpairs(n):
    return [socket.socketpair() for _ in range(n)]
