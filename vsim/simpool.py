"""
multiprocessing.Pool (and the executors of concurrent.futures) on top of the
simulator: real forked workers, real pickling, the real chunking rule and the real
result/exception protocol; task hand-out, result delivery, worker exit and worker
replacement are decided by the simulator.
"""
import concurrent.futures
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.dummy
import multiprocessing.pool
import multiprocessing.process
import os
import pickle
import random
import sys
import threading
import traceback
from multiprocessing.pool import ExceptionWithTraceback, MaybeEncodingError, mapstar, starmapstar
from multiprocessing.reduction import ForkingPickler

from . import seams
from .seams import STATE, sim, active, _real

RUN, CLOSE, TERMINATE = 'RUN', 'CLOSE', 'TERMINATE'
RealPool = multiprocessing.pool.Pool
RealThreadPool = multiprocessing.pool.ThreadPool
RealPPE = concurrent.futures.ProcessPoolExecutor
RealTPE = concurrent.futures.ThreadPoolExecutor
_real_ctx_pool = multiprocessing.context.BaseContext.Pool
_real_as_completed = concurrent.futures.as_completed
_real_wait = concurrent.futures.wait


class SimTimeoutReached(Exception):
    pass


def _dumps(o):
    return bytes(ForkingPickler.dumps(o))


def become(vpid, chan_index, hello_kind='hello'):
    """Turn the freshly forked current process into simulated process `vpid`."""
    STATE.owner = None
    STATE.chan = seams.Chan(STATE.chans[chan_index][1])
    STATE.thread = threading.get_ident()
    STATE.vpid = vpid
    STATE.busy = False
    STATE.deferred = []
    STATE.openfiles = {}
    STATE.fdmap = dict(STATE.fdmap)
    r = sim(hello_kind, '', pid=_real['getpid']())
    STATE.fakepid = r['fakepid']
    random.seed(r['seed'])
    np = sys.modules.get('numpy')
    if np is not None and r.get('npseed') is not None:
        np.random.seed(r['npseed'])
    return r


def _worker_main(pool_id, vpid, chan_index, initializer, initargs, maxtasks, wrap_exc, name):
    code = 0
    try:
        become(vpid, chan_index)
        p = multiprocessing.process.BaseProcess.__new__(multiprocessing.context.ForkProcess)
        p._identity = (vpid,)
        p._config = {'daemon': True, 'authkey': b'x', 'semprefix': '/mp'}
        p._name = name
        p._parent_pid = _real['getpid']()
        p._popen = None
        p._closed = False
        multiprocessing.process._current_process = p
        if initializer is not None:
            initializer(*initargs)
        done = 0
        while maxtasks is None or done < maxtasks:
            r = sim('take', '', pool=pool_id)
            if r['task'] is None:
                break
            tid, payload = r['task']
            func, args, kwds = pickle.loads(payload)
            try:
                result = (True, func(*args, **kwds))
            except Exception as e:
                if wrap_exc:
                    e = ExceptionWithTraceback(e, e.__traceback__)
                result = (False, e)
            try:
                data = _dumps(result)
            except Exception as e:
                data = _dumps((False, MaybeEncodingError(e, result[1])))
            result = func = args = kwds = None
            sim('put', '', pool=pool_id, tid=tid, data=data)
            done += 1
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    try:
        sim('workerexit', '', pool=pool_id, code=code)
    finally:
        _real['_exit'](code & 0xff)


class SimResult:
    """AsyncResult / MapResult"""

    def __init__(self, pool, tids, assemble, callback=None, error_callback=None):
        self._pool, self._tids, self._assemble = pool, list(tids), assemble
        self._cb, self._ecb = callback, error_callback
        self._done = False
        self._success = None
        self._value = None
        if not self._tids:
            self._finish(True, assemble([]))

    def _finish(self, ok, value):
        self._done, self._success, self._value = True, ok, value
        if ok and self._cb:
            self._cb(value)
        if not ok and self._ecb:
            self._ecb(value)

    def _check(self):
        if self._done:
            return
        p = self._pool
        if all(t in p._results for t in self._tids):
            fails = [t for t in p._order if t in set(self._tids) and not p._results[t][0]]
            if fails:
                self._finish(False, p._results[fails[0]][1])
            else:
                self._finish(True, self._assemble([p._results[t][1] for t in self._tids]))

    def ready(self):
        if not self._done:
            self._pool._poll()
            self._check()
        return self._done

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self._success

    def wait(self, timeout=None):
        if not self._done:
            self._pool._wait(self._tids, 'all', timeout)
            self._check()

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocessing.TimeoutError
        if self._success:
            return self._value
        raise self._value


class SimIMap:
    def __init__(self, pool, tids, ordered, unbatch):
        self._pool, self._tids, self._ordered, self._unbatch = pool, list(tids), ordered, unbatch
        self._buf = []

    def __iter__(self):
        return self

    def next(self, timeout=None):
        while True:
            if self._buf:
                ok, v = self._buf.pop(0)
                if ok:
                    return v
                raise v
            if not self._tids:
                raise StopIteration
            p = self._pool
            if self._ordered:
                t = self._tids[0]
                p._wait([t], 'all', timeout)
            else:
                p._wait(self._tids, 'any', timeout)
                s = set(self._tids)
                got = [u for u in p._order if u in s]
                t = got[0] if got else None
            if t is None or t not in p._results:
                raise multiprocessing.TimeoutError
            self._tids.remove(t)
            ok, v = p._results[t]
            if ok and self._unbatch:
                self._buf += [(True, x) for x in v]
            else:
                self._buf.append((ok, v))

    __next__ = next


class SimPool:
    _is_executor = False
    _wrap_exc = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._state = TERMINATE
        if multiprocessing.current_process().daemon:
            raise AssertionError('daemonic processes are not allowed to have children')
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if maxtasksperchild is not None and (not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0):
            raise ValueError('maxtasksperchild must be a positive int or None')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self._owner = STATE.vpid
        self._processes = processes
        self._init = (initializer, initargs, maxtasksperchild)
        self._results = {}
        self._order = []
        self._tasks = itertools.count()
        self._pids = []
        self._handles = []
        r = sim('poolnew', '', n=processes, executor=self._is_executor)
        self._id = r['pool']
        self._state = RUN
        try:
            for _ in range(processes):
                self._spawn()
        except BaseException:
            self.terminate()
            raise

    # --- processes
    def _spawn(self):
        r = sim('fork', '', pool=self._id)
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        STATE.owner = 'forking'
        pid = _real['fork']()
        if pid == 0:
            try:
                _worker_main(self._id, r['vpid'], r['chan'], self._init[0], self._init[1], self._init[2],
                             self._wrap_exc, 'ForkPoolWorker-%d' % r['vpid'])
            finally:
                _real['_exit'](71)
        STATE.owner = None
        self._pids.append(pid)
        sim('forked', '', pool=self._id, vpid=r['vpid'], pid=pid)

    def _mine(self):
        return STATE.vpid == self._owner and STATE.chan is not None

    def _check_running(self):
        if self._state != RUN:
            raise ValueError('Pool not running')

    # --- tasks
    def _submit(self, payloads):
        tids, msgs = [], []
        for func, args, kwds in payloads:
            t = next(self._tasks)
            tids.append(t)
            try:
                msgs.append((t, _dumps((func, args, kwds))))
            except Exception as e:
                self._results[t] = (False, e)
                self._order.append(t)
        if msgs:
            sim('submit', '', pool=self._id, tasks=msgs)
        return tids

    def _absorb(self, r):
        for t, data in r.get('results', ()):
            self._results[t] = pickle.loads(data)
            self._order.append(t)
        for h in list(self._handles):
            h._check()
            if h._done:
                self._handles.remove(h)

    def _poll(self):
        self._absorb(sim('poll', '', pool=self._id))

    def _wait(self, tids, mode, timeout=None):
        """Returns False on timeout"""
        deadline = None if timeout is None else STATE.mono + max(0.0, timeout)
        while True:
            missing = [t for t in tids if t not in self._results]
            if not missing or (mode == 'any' and len(missing) < len(tids)):
                for h in list(self._handles):
                    h._check()
                return True
            r = sim('wait', '', pool=self._id, want=missing, mode=mode, deadline=deadline)
            self._absorb(r)
            if r.get('respawn'):
                self._spawn()
            if r.get('broken'):
                raise concurrent.futures.process.BrokenProcessPool(
                    'A process in the process pool was terminated abruptly while the future was running or pending.')
            if r.get('timeout'):
                return False

    @staticmethod
    def _batches(func, it, size):
        it = iter(it)
        while True:
            x = tuple(itertools.islice(it, size))
            if not x:
                return
            yield (func, x)

    def _map_async(self, func, iterable, mapper, chunksize=None, callback=None, error_callback=None):
        self._check_running()
        if not hasattr(iterable, '__len__'):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), self._processes * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        tids = []
        if chunksize:
            tids = self._submit([(mapper, (b,), {}) for b in self._batches(func, iterable, chunksize)])
        h = SimResult(self, tids, lambda vs: [x for v in vs for x in v], callback, error_callback)
        self._handles.append(h)
        return h

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, mapstar, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, starmapstar, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, mapstar, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, starmapstar, chunksize, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check_running()
        tids = self._submit([(func, tuple(args), dict(kwds))])
        h = SimResult(self, tids, lambda vs: vs[0], callback, error_callback)
        self._handles.append(h)
        return h

    def _imap(self, func, iterable, chunksize, ordered):
        self._check_running()
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        if chunksize == 1:
            tids = self._submit([(func, (x,), {}) for x in iterable])
            return SimIMap(self, tids, ordered, False)
        tids = self._submit([(mapstar, (b,), {}) for b in self._batches(func, iterable, chunksize)])
        return SimIMap(self, tids, ordered, True)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    # --- shutdown
    def close(self):
        if self._state == RUN and self._mine():
            self._state = CLOSE
            sim('poolclose', '', pool=self._id)

    def terminate(self):
        if self._state in (RUN, CLOSE) and self._mine():
            self._state = TERMINATE
            sim('poolterm', '', pool=self._id)
            self._reap()

    def join(self):
        if self._state == RUN:
            raise ValueError('Pool is still running')
        if self._state == CLOSE and self._mine():
            while True:
                r = sim('join', '', pool=self._id)
                self._absorb(r)
                if r.get('respawn'):
                    self._spawn()
                    continue
                if r.get('broken'):
                    self.terminate()
                    return
                break
            self._state = 'JOINED'
            self._reap()

    def _reap(self):
        for pid in self._pids:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self._pids = []

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def __del__(self):
        # CPython: the pool's Finalize object terminates and joins the workers
        try:
            if self._state in (RUN, CLOSE) and self._mine():
                if STATE.busy:
                    STATE.deferred.append(self.terminate)
                else:
                    self.terminate()
        except Exception:
            pass


class SimExecPool(SimPool):
    _is_executor = True


class SimThreadPool:
    """ThreadPool / multiprocessing.dummy.Pool: tasks run one after another in the calling thread."""

    def __init__(self, processes=None, initializer=None, initargs=()):
        if initializer:
            initializer(*initargs)
        self._state = RUN

    def _run(self, f, *a, **k):
        class R:
            pass
        r = SimResult.__new__(SimResult)
        r._tids, r._done, r._cb, r._ecb = [], True, None, None
        try:
            r._success, r._value = True, f(*a, **k)
        except Exception as e:
            r._success, r._value = False, e
        return r

    def map(self, func, it, chunksize=None):
        return [func(x) for x in list(it)]

    def starmap(self, func, it, chunksize=None):
        return [func(*x) for x in list(it)]

    def imap(self, func, it, chunksize=1):
        return iter([func(x) for x in it])

    imap_unordered = imap

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = self._run(func, *args, **kwds)
        if r._success and callback:
            callback(r._value)
        if not r._success and error_callback:
            error_callback(r._value)
        return r

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self.apply_async(lambda: [func(x) for x in list(it)], callback=callback, error_callback=error_callback)

    def close(self):
        self._state = CLOSE

    def terminate(self):
        self._state = TERMINATE

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------ concurrent.futures ----

class SimFuture(concurrent.futures.Future):
    _pool = None
    _tid = None

    def _pull(self, timeout=None):
        if self.done() and self._tid is None:
            return True
        p = self._pool
        try:
            if not p._wait([self._tid], 'all', timeout):
                return False
        except concurrent.futures.process.BrokenProcessPool as e:
            if not super().done():
                self.set_exception(e)
            return True
        self._settle()
        return True

    def _settle(self):
        if not super().done() and self._tid in self._pool._results:
            ok, v = self._pool._results[self._tid]
            if ok:
                self.set_result(v)
            else:
                self.set_exception(v)

    def done(self):
        if self._pool is not None and not super().done() and self._tid in self._pool._results:
            self._settle()
        return super().done()

    def result(self, timeout=None):
        if not super().done() and not self._pull(timeout):
            raise concurrent.futures.TimeoutError()
        return super().result(0)

    def exception(self, timeout=None):
        if not super().done() and not self._pull(timeout):
            raise concurrent.futures.TimeoutError()
        return super().exception(0)


class SimProcessPoolExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        self._n = max_workers or os.cpu_count() or 1
        if self._n <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._args = (initializer, initargs, max_tasks_per_child)
        self._pool = None
        self._futs = []
        self._shut = False

    def submit(self, fn, /, *args, **kwargs):
        if self._shut:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self._pool is None:
            self._pool = SimExecPool(self._n, self._args[0], self._args[1], self._args[2])
        f = SimFuture()
        f.set_running_or_notify_cancel()
        f._pool = self._pool
        f._tid = self._pool._submit([(fn, args, kwargs)])[0]
        self._futs.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result(timeout)
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._shut:
            return
        self._shut = True
        if self._pool is not None:
            for f in self._futs:
                f._pull()
            if self._pool._state == RUN:
                self._pool.close()
                try:
                    self._pool.join()
                except Exception:
                    self._pool.terminate()


class SimThreadPoolExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        if initializer:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        try:
            f.set_result(fn(*args, **kwargs))
        except BaseException as e:
            f.set_exception(e)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if not active() or not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    pending = list(fs)
    while pending:
        ready = [f for f in pending if f.done()]
        if not ready:
            pool = pending[0]._pool
            mine = [f for f in pending if f._pool is pool]
            try:
                pool._wait([f._tid for f in mine], 'any', timeout)
            except concurrent.futures.process.BrokenProcessPool:
                ready = mine
                for f in mine:
                    f._pull()
            else:
                order = {t: i for i, t in enumerate(pool._order)}
                ready = sorted([f for f in mine if f.done()], key=lambda f: order.get(f._tid, 0))
        for f in ready:
            pending.remove(f)
            yield f


def _wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = set(fs)
    if not active() or not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)
    done = set()
    for f in _as_completed(sorted(fs, key=lambda f: f._tid), timeout):
        done.add(f)
        if return_when == concurrent.futures.FIRST_COMPLETED:
            break
        if return_when == concurrent.futures.FIRST_EXCEPTION and f.exception() is not None:
            break
    done |= {f for f in fs if f.done()}
    W = type(_real_wait([concurrent.futures.Future()], timeout=0))
    return W(done, fs - done)


def _switch(simcls, realcls):
    class Switch:
        def __new__(cls, *a, **k):
            if active():
                return simcls(*a, **k)
            return realcls(*a, **k)
    Switch.__name__ = realcls.__name__
    Switch.__doc__ = realcls.__doc__
    return Switch


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    if active():
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    return _real_ctx_pool(self, processes, initializer, initargs, maxtasksperchild)


def _dummy_pool(processes=None, initializer=None, initargs=()):
    if active():
        return SimThreadPool(processes, initializer, initargs)
    return RealThreadPool(processes, initializer, initargs)


def install():
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    default = multiprocessing.context._default_context
    multiprocessing.Pool = \
        lambda processes=None, initializer=None, initargs=(), maxtasksperchild=None: \
        _ctx_pool(default.get_context(), processes, initializer, initargs, maxtasksperchild)
    multiprocessing.pool.Pool = _switch(SimPool, RealPool)
    multiprocessing.pool.ThreadPool = _switch(SimThreadPool, RealThreadPool)
    multiprocessing.dummy.Pool = _dummy_pool
    concurrent.futures.ProcessPoolExecutor = _switch(SimProcessPoolExecutor, RealPPE)
    concurrent.futures.ThreadPoolExecutor = _switch(SimThreadPoolExecutor, RealTPE)
    concurrent.futures.process.ProcessPoolExecutor = concurrent.futures.ProcessPoolExecutor
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _wait
