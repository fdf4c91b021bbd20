"""
The simulator: decides, from one PRNG or from a recorded schedule, which simulated
process performs its next operation and which fault it meets.
"""
import errno
import gc
import hashlib
import os
import pickle
import random
import select
import signal
import socket
import struct
import sys
import threading
import traceback

from . import seams, simpool
from .seams import STATE, _real
from .util import derive

WALL_LIMIT = 60.0        # a running process that does nothing visible for so long is reported as such
NCHAN = 72


class HarnessError(Exception):
    pass


class Proc:
    __slots__ = ('vpid', 'kind', 'pid', 'pidfd', 'chan', 'state', 'req', 'pool', 'task', 'parent', 'exit',
                 'main', 'frozen', 'ops', 'sig', 'last_op', 'wake', 'matched')

    def __init__(self, vpid, kind, chan, parent=None, pool=None, main=None):
        self.vpid, self.kind, self.chan, self.parent, self.pool = vpid, kind, chan, parent, pool
        self.pid = self.pidfd = None
        self.state = 'new'
        self.req = None
        self.task = None
        self.exit = None
        self.main = main
        self.frozen = 0
        self.ops = 0
        self.sig = None
        self.last_op = None
        self.wake = None
        self.matched = False


class PoolState:
    def __init__(self, pid, owner, n, executor):
        self.id, self.owner, self.n, self.executor = pid, owner, n, executor
        self.queue = []          # [(tid, payload)]
        self.done = []           # [(tid, data)] in completion order, not yet delivered
        self.ndone = set()
        self.closed = False
        self.terminated = False
        self.workers = []
        self.respawn = 0
        self.broken = False
        self.taken = {}          # tid -> vpid (who ran it)
        self.submitted = 0


# ------------------------------------------------------------ policies ----

class Policy:
    """Chooses among enabled processes.  Deterministic given its seed."""

    def __init__(self, spec):
        self.spec = dict(spec)
        self.kind = spec.get('kind', 'seq')
        self.r = random.Random(derive('policy', spec.get('seed', 0)))
        self.prio = {}
        self.cur = None
        self.k = 0
        self.changes = set(spec.get('changes', ()))
        self.victim = spec.get('victim')
        self.replay = list(spec.get('choices', ()))
        self.ri = 0

    def choose(self, enabled, step):
        """enabled: sorted list of vpids, at least two."""
        self.k += 1
        if self.kind == 'replay':
            if self.ri < len(self.replay):
                c = self.replay[self.ri]
                self.ri += 1
                if c in enabled:
                    self.cur = c
                    return c
            return self._seq(enabled)
        if self.kind == 'seq':
            return self._seq(enabled)
        if self.kind == 'uniform':
            return self.r.choice(enabled)
        if self.kind == 'sticky':
            if self.cur in enabled and self.r.random() < 0.85:
                return self.cur
            self.cur = self.r.choice(enabled)
            return self.cur
        if self.kind == 'rr':
            later = [v for v in enabled if self.cur is not None and v > self.cur]
            self.cur = later[0] if later else enabled[0]
            return self.cur
        if self.kind == 'lifo':
            return enabled[-1]
        if self.kind == 'pct':
            for v in enabled:
                if v not in self.prio:
                    self.prio[v] = self.r.random()
            best = max(enabled, key=lambda v: self.prio[v])
            if self.k in self.changes:
                self.prio[best] = -self.k
                best = max(enabled, key=lambda v: self.prio[v])
            return best
        if self.kind == 'starve':
            rest = [v for v in enabled if v % 7 != self.victim % 7] or enabled
            return self.r.choice(rest)
        raise HarnessError('unknown policy ' + self.kind)

    def _seq(self, enabled):
        if self.cur in enabled:
            return self.cur
        self.cur = enabled[0]
        return self.cur


def random_policy(r):
    k = r.choice(['uniform', 'uniform', 'sticky', 'sticky', 'rr', 'lifo', 'pct', 'pct', 'pct', 'starve'])
    spec = {'kind': k, 'seed': r.getrandbits(32)}
    if k == 'pct':
        spec['changes'] = sorted(r.sample(range(1, 400), 6))
    if k == 'starve':
        spec['victim'] = r.randrange(7)
    return spec


# ------------------------------------------------------------ simulator ----

class Result:
    """What one simulated execution did."""

    def __init__(self):
        self.status = None        # 'done' | 'hang' | 'steps' | 'wall'
        self.mains = {}           # name -> status dict
        self.events = []          # (step, vpid, kind, rel, outcome)
        self.steps = 0
        self.choices = []
        self.branches = 0
        self.fired = []           # faults that actually fired
        self.counts = {}
        self.sim_time = 0.0
        self.deaths = []
        self.alive_at_exit = {}
        self.foreign = []
        self.detail = ''
        self.nprocs = 0
        self.tasklog = []

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()

    def interleaving(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(('%d %s %s;' % (e[1], e[2], e[3])).encode())
        return h.hexdigest()[:16]


class Sim:
    """One simulated execution.

    mains: list of dicts {name, fn}, fn() runs in a fresh forked process and
    returns a picklable status; faults: list of {'at':{op,rel,n|step}, 'act':{...}}.
    """

    def __init__(self, root, mains, policy=None, faults=(), seed=0, max_steps=30000, bufsize=8192,
                 wall0=1.7e9, on_event=None, hook=None):
        self.root = root
        self.mains = mains
        self.policy = Policy(policy or {'kind': 'seq'})
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f['_fired'] = 0
        self.seed = seed
        self.r = random.Random(derive('sim', seed))
        self.max_steps = max_steps
        self.bufsize = bufsize
        self.on_event = on_event
        self.hook = hook
        self.procs = {}
        self.pools = {}
        self.next_vpid = 0
        self.next_pool = 0
        self.wall = wall0
        self.mono = 1000.0
        self.res = Result()
        self.occ = {}
        self.sticky = []
        self.free = []
        self.socks = []
        self.pending_kill = []

    # ---- processes
    def _alloc(self):
        if not self.free:
            raise HarnessError('too many simulated processes')
        return self.free.pop(0)

    def _spawn_main(self, m):
        vpid = self.next_vpid
        self.next_vpid += 1
        ch = self._alloc()
        p = Proc(vpid, 'main', ch, main=m['name'])
        self.procs[vpid] = p
        sys.stdout.flush()
        sys.stderr.flush()
        STATE.owner = 'forking'
        pid = _real['fork']()
        if pid == 0:
            try:
                gc.disable()
                _main_child(self, m, vpid, ch)
            except BaseException:
                try:
                    os.makedirs(os.path.join(self.root, 'std'), exist_ok=True)
                    with seams.R_open(os.path.join(self.root, 'std', m['name'] + '.harness'), 'w') as f:
                        traceback.print_exc(file=f)
                except BaseException:
                    pass
            finally:
                _real['_exit'](72)
        STATE.owner = None
        self._attach(p, pid)
        return p

    def _attach(self, p, pid):
        p.pid = pid
        p.pidfd = os.pidfd_open(pid)
        p.state = 'running'
        self.res.nprocs += 1

    def _reply(self, p, **x):
        x['wall'], x['mono'] = self.wall, self.mono
        data = pickle.dumps(x, protocol=4)
        p.state = 'running'
        p.req = None
        try:
            self.socks[p.chan][0].sendall(struct.pack('<I', len(data)) + data)
        except OSError:
            pass

    def _pump(self):
        """Let running processes run until each is parked or dead."""
        while True:
            running = [p for p in self.procs.values() if p.state == 'running']
            if not running:
                return True
            po = select.poll()
            fds = {}
            for p in running:
                s = self.socks[p.chan][0]
                po.register(s.fileno(), select.POLLIN)
                fds[s.fileno()] = (p, 's')
                po.register(p.pidfd, select.POLLIN)
                fds[p.pidfd] = (p, 'd')
            ev = po.poll(WALL_LIMIT * 1000)
            if not ev:
                self.res.status = 'wall'
                self.res.detail = 'no visible progress for %d s of real time: %s' % (
                    WALL_LIMIT, ', '.join('%s%d after %r' % (p.kind, p.vpid, p.last_op) for p in running))
                return False
            # messages before deaths: a process may have spoken before it died
            ready = sorted(((fds[fd][0].vpid, 0 if fds[fd][1] == 's' else 1, fd) for fd, _ in ev))
            handled = set()
            for vpid, _, fd in sorted(ready, key=lambda t: (t[1], t[0])):
                p, what = fds[fd]
                if p.vpid in handled or p.state != 'running':
                    continue
                handled.add(p.vpid)
                if what == 's':
                    try:
                        msg = seams.recv_msg(self.socks[p.chan][0])
                    except Exception as e:
                        raise HarnessError('bad message from %d: %r' % (p.vpid, e))
                    p.state = 'parked'
                    p.req = msg
                    p.ops += 1
                    p.last_op = msg[:2]
                    if msg[0] == 'forked':
                        child = self.procs[msg[2]['vpid']]
                        self._attach(child, msg[2]['pid'])
                else:
                    self._dead(p)

    def _dead(self, p):
        if p.state == 'dead':
            return
        p.state = 'dead'
        sig = None
        if p.kind == 'main':
            try:
                _, st = os.waitpid(p.pid, 0)
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                else:
                    p.exit = os.WEXITSTATUS(st) if p.exit is None else p.exit
            except OSError:
                pass
            p.sig = sig
            st = self.res.mains.setdefault(p.main, {})
            if 'status' not in st:
                st['status'] = 'killed' if p.exit == 'killed' else 'crashed'
                st['signal'] = sig
        else:
            pool = self.pools.get(p.pool)
            if pool is not None and p.exit is None:
                # unexpected death (or kill): the task it held is lost
                self.res.deaths.append((p.vpid, p.task))
                if not pool.terminated:
                    if pool.executor:
                        if not pool.broken:
                            pool.broken = True
                            for w in pool.workers:
                                q = self.procs[w]
                                if q.state not in ('dead', 'new'):
                                    q.exit = 'terminated'
                                    self._kill(q)
                    else:
                        pool.respawn += 1
            elif pool is not None and p.exit is not None and p.task is not None and not pool.terminated:
                self.res.deaths.append((p.vpid, p.task))
            if pool is not None and p.exit is not None and p.exit != 'killed' and not pool.closed \
                    and not pool.terminated and not pool.executor:
                pool.respawn += 1         # maxtasksperchild or sys.exit() in a task
        if p.pidfd is not None:
            os.close(p.pidfd)
            p.pidfd = None
        if p.kind != 'main':
            self._reap()

    def _reap(self):
        pass

    def _kill(self, p, mark='killed'):
        if p.state in ('dead', 'new'):
            return
        if p.kind == 'main':
            p.exit = mark
        try:
            os.kill(p.pid, signal.SIGKILL)
        except OSError:
            pass
        select.poll()
        po = select.poll()
        po.register(p.pidfd, select.POLLIN)
        po.poll(30000)
        self._dead(p)

    def kill_main(self, name, orphans=False):
        for p in list(self.procs.values()):
            if p.kind == 'main' and p.main == name:
                self._kill(p)
                self.res.mains[name]['status'] = 'killed'
                for w in list(self.procs.values()):
                    if w.kind == 'worker' and self._root_main(w) == name:
                        if orphans and w.state == 'parked':
                            w.parent = None
                        else:
                            w.exit = 'killed'
                            self._kill(w)

    def _root_main(self, p):
        pool = self.pools.get(p.pool)
        while pool is not None:
            q = self.procs.get(pool.owner)
            if q is None:
                return None
            if q.kind == 'main':
                return q.main
            pool = self.pools.get(q.pool)
        return None

    # ---- enabling
    def _enabled(self, p):
        kind, rel, x = p.req
        if kind == 'take':
            pool = self.pools[x['pool']]
            return bool(pool.queue) or pool.terminated or (pool.closed and len(pool.ndone) >= pool.submitted)
        if kind == 'wait':
            pool = self.pools[x['pool']]
            if pool.respawn or pool.broken:
                return True
            have = {t for t, _ in pool.done}
            ok = all(t in have for t in x['want']) if x['mode'] == 'all' else any(t in have for t in x['want'])
            if ok:
                return True
            return x.get('deadline') is not None and self.mono >= x['deadline']
        if kind == 'join':
            pool = self.pools[x['pool']]
            if pool.respawn:
                return True
            return all(self.procs[w].state == 'dead' for w in pool.workers)
        if kind == 'sleep':
            return p.wake is None or self.mono >= p.wake
        return True

    def _wake_times(self):
        t = []
        for p in self.procs.values():
            if p.state == 'parked':
                kind, rel, x = p.req
                if kind == 'sleep' and p.wake is not None:
                    t.append(p.wake)
                if kind == 'wait' and x.get('deadline') is not None:
                    t.append(x['deadline'])
        return t

    # ---- faults
    def _match(self, p, kind, rel):
        key = (kind, rel)
        n = self.occ[key] = self.occ.get(key, 0) + 1
        for f in self.faults:
            at = f['at']
            if f['_fired'] and not at.get('every'):
                continue
            if 'step' in at:
                if at['step'] != self.res.steps:
                    continue
            else:
                if at['op'] != kind:
                    continue
                if 'rel' in at and at['rel'] != rel:
                    if not at['rel'].endswith('*') or not rel.startswith(at['rel'][:-1]):
                        continue
                if 'n' in at and at['n'] != n and 'rel' in at and not at['rel'].endswith('*'):
                    continue
                if 'nth' in at:      # n-th match of this very spec
                    f['_seen'] = f.get('_seen', 0) + 1
                    if f['_seen'] != at['nth']:
                        continue
                if 'main' in at and (p.main if p.kind == 'main' else self._root_main(p)) != at['main']:
                    continue
                if 'role' in at and p.kind != at['role']:
                    continue
            f['_fired'] += 1
            return f
        for act, pre in self.sticky:
            if kind in act['ops'] and rel.startswith(pre):
                return {'act': act, '_sticky': True}
        return None

    def _advance(self):
        d = self.r.expovariate(1 / 0.002)
        self.wall += d
        self.mono += d
        self.res.sim_time += d

    # ---- main loop
    def run(self):
        res = self.res
        self.socks = seams.socketpairs(NCHAN)
        self.free = list(range(NCHAN))
        STATE.chans = self.socks
        STATE.root = self.root
        STATE.bufsize = self.bufsize
        try:
            for m in self.mains:
                self._spawn_main(m)
            while True:
                if not self._pump():
                    break
                live_mains = [p for p in self.procs.values() if p.kind == 'main' and p.state != 'dead']
                parked = [p for p in self.procs.values() if p.state == 'parked']
                if not live_mains:
                    orphans = [p for p in parked if self._enabled(p) and p.req[0] != 'take']
                    if not orphans:
                        res.status = res.status or 'done'
                        break
                    parked = orphans
                if res.steps >= self.max_steps:
                    res.status = 'steps'
                    res.detail = 'still running after %d operations' % res.steps
                    break
                en = [p for p in parked if self._enabled(p)]
                if not en:
                    wake = self._wake_times()
                    if wake:
                        dt = max(0.0, min(wake) - self.mono) + 1e-6
                        self.mono += dt
                        self.wall += dt
                        res.sim_time += dt
                        continue
                    res.status = 'hang'
                    res.detail = '; '.join('%s%d waiting in %s %s' % (
                        p.kind, p.vpid, p.req[0], {k: v for k, v in p.req[2].items() if k in ('pool', 'want', 'mode')})
                        for p in parked)
                    break
                thawed = [p for p in en if p.frozen <= res.steps]
                cand = thawed or en
                if len(cand) > 1:
                    res.branches += 1
                    v = self.policy.choose(sorted(p.vpid for p in cand), res.steps)
                    res.choices.append(v)
                    p = self.procs[v]
                else:
                    p = cand[0]
                self._advance()
                res.steps += 1
                self._execute(p)
        finally:
            self._cleanup()
        return res

    def _log(self, p, kind, rel, out=''):
        e = (self.res.steps, p.vpid, kind, rel, out)
        self.res.events.append(e)
        self.res.counts[kind] = self.res.counts.get(kind, 0) + 1
        if self.on_event:
            self.on_event(self, p, kind, rel, out)

    def _execute(self, p):
        kind, rel, x = p.req
        res = self.res
        f = None
        if p.matched:
            p.matched = False
            if kind == 'sleep':
                p.matched = True
        elif kind not in ('hello', 'forked', 'torn', 'mainexit', 'workerexit', 'foreign'):
            f = self._match(p, kind, rel)
        act = f['act'] if f else None
        do = None
        out = ''
        if act:
            t = act['t']
            out = t
            if not f.get('_sticky'):
                res.fired.append(dict(f['at'], t=t, e=act.get('e'), op=kind, rel=rel, step=res.steps))
            if t == 'kill':
                self._log(p, kind, rel, 'kill-' + act.get('who', 'self'))
                self._do_kill(p, act)
                return
            if t == 'errno':
                if kind == 'read':
                    do = ('errno', act['e'])
                elif kind == 'write':
                    do = ('errno', act['e'], act.get('k', 0))
                elif kind in ('open', 'close', 'fork', 'listdir', 'unlink', 'remove', 'rename', 'replace', 'mkdir',
                              'fsync', 'stat', 'truncate', 'rmdir', 'os.open'):
                    do = ('errno', act['e'])
                else:
                    out = ''
                if act.get('sticky'):
                    self.sticky.append(({'t': 'errno', 'e': act['e'], 'ops': ('write', 'mkdir') if act['e'] in (
                        errno.ENOSPC, errno.EDQUOT) else (kind,), 'k': 0}, act.get('prefix', 'out/')))
            elif t == 'short':
                if kind in ('read', 'write'):
                    do = ('short', act.get('k', 1))
            elif t == 'torn':
                if kind == 'write':
                    do = ('torn', act.get('k', 0))
                    self.pending_kill.append((p.vpid, act))
                else:
                    self._log(p, kind, rel, 'kill-' + act.get('who', 'self'))
                    self._do_kill(p, act)
                    return
            elif t == 'mem':
                if kind == 'kernel':
                    do = ('mem',)
            elif t == 'stall':
                self.mono += act['s']
                self.wall += act['s']
                res.sim_time += act['s']
            elif t == 'freeze':
                p.frozen = res.steps + act['steps']
                p.matched = True
                return
            elif t == 'clock':
                self.wall += act['s']
        self._log(p, kind, rel, out)
        if kind == 'hello':
            rr = random.Random(derive('proc', self.seed, p.vpid))
            base = random.Random(derive('pids', self.seed)).randrange(20000)
            self._reply(p, fakepid=1000 + base + 3 * p.vpid, seed=rr.getrandbits(64), npseed=rr.getrandbits(32))
        elif kind == 'poolnew':
            pid = self.next_pool
            self.next_pool += 1
            self.pools[pid] = PoolState(pid, p.vpid, x['n'], x['executor'])
            self._reply(p, pool=pid)
        elif kind == 'fork':
            if do:
                self._reply(p, do=do)
                return
            vpid = self.next_vpid
            self.next_vpid += 1
            ch = self._alloc()
            pool = self.pools[x['pool']]
            c = Proc(vpid, 'worker', ch, parent=p.vpid, pool=x['pool'])
            self.procs[vpid] = c
            pool.workers.append(vpid)
            if pool.respawn:
                pool.respawn -= 1
            self._reply(p, vpid=vpid, chan=ch)
        elif kind == 'forked':
            self._reply(p)
        elif kind == 'submit':
            pool = self.pools[x['pool']]
            pool.queue += x['tasks']
            pool.submitted += len(x['tasks'])
            self._reply(p)
        elif kind == 'take':
            pool = self.pools[x['pool']]
            if pool.queue and not pool.terminated:
                t = pool.queue.pop(0)
                p.task = t[0]
                pool.taken[t[0]] = p.vpid
                res.tasklog.append((pool.id, t[0], p.vpid, res.steps))
                self._reply(p, task=t)
            else:
                self._reply(p, task=None)
        elif kind == 'put':
            pool = self.pools[x['pool']]
            pool.done.append((x['tid'], x['data']))
            pool.ndone.add(x['tid'])
            p.task = None
            self._reply(p)
        elif kind in ('wait', 'poll', 'join'):
            pool = self.pools[x['pool']]
            if kind == 'poll':
                self._reply(p, results=pool.done)
                pool.done = []
            elif pool.broken:
                self._reply(p, results=pool.done, broken=True)
                pool.done = []
            elif pool.respawn and not (pool.closed and not pool.queue):
                self._reply(p, results=pool.done, respawn=True)
                pool.done = []
            elif kind == 'wait':
                have = {t for t, _ in pool.done}
                ok = all(t in have for t in x['want']) if x['mode'] == 'all' else any(t in have for t in x['want'])
                if pool.respawn and not ok:
                    # the pool is closed and a worker died: it is replaced all the same while tasks are pending
                    self._reply(p, results=pool.done, respawn=True)
                else:
                    self._reply(p, results=pool.done, timeout=not ok)
                pool.done = []
            else:
                if pool.respawn:
                    pool.respawn = 0
                    if not all(self.procs[w].state == 'dead' for w in pool.workers):
                        p.state = 'parked'
                        return
                self._reply(p, results=pool.done)
                pool.done = []
        elif kind == 'poolclose':
            self.pools[x['pool']].closed = True
            self._reply(p)
        elif kind == 'poolterm':
            pool = self.pools[x['pool']]
            pool.terminated = True
            for w in pool.workers:
                q = self.procs[w]
                if q.state == 'new':
                    q.state = 'dead'
                elif q.state != 'dead':
                    q.exit = 'terminated'
                    self._kill(q)
            self._reply(p)
        elif kind == 'workerexit':
            p.exit = x['code']
            self._reply(p)
        elif kind == 'mainexit':
            st = res.mains.setdefault(p.main, {})
            st.update(x['status'])
            st['step'] = res.steps
            alive = [w.vpid for w in self.procs.values()
                     if w.kind == 'worker' and w.state not in ('dead', 'new') and self._root_main(w) == p.main]
            st['alive_workers'] = len(alive)
            # interpreter exit: multiprocessing terminates what is left
            for v in alive:
                self.procs[v].exit = 'terminated'
                self._kill(self.procs[v])
            self._reply(p)
        elif kind == 'torn':
            for i, (v, a) in enumerate(self.pending_kill):
                if v == p.vpid:
                    self.pending_kill.pop(i)
                    self._do_kill(p, a)
                    return
            self._reply(p)
        elif kind == 'sleep':
            if p.wake is None and x['s'] > 0:
                p.wake = self.mono + x['s']
                p.matched = True
                return
            p.wake = None
            p.matched = False
            self._reply(p)
        elif kind == 'foreign':
            res.foreign.append((p.vpid, rel, x.get('what'), res.steps))
            self._reply(p)
        elif kind == 'listdir':
            self._reply(p, do=do, seed=self.r.getrandbits(30))
        elif kind == 'user':
            ans = self.hook(self, p, rel, x) if self.hook else None
            self._reply(p, ans=ans)
        else:
            self._reply(p, do=do)

    def _do_kill(self, p, act):
        who = act.get('who', 'self')
        main = p.main if p.kind == 'main' else self._root_main(p)
        if who == 'self' and p.kind == 'worker':
            self._kill(p)
        elif who == 'worker':
            ws = [w for w in self.procs.values() if w.kind == 'worker' and w.state == 'parked'
                  and self._root_main(w) == main]
            ws = sorted(ws, key=lambda w: w.vpid)
            if ws:
                self._kill(ws[act.get('idx', 0) % len(ws)])
            if p.state == 'parked' and p.req is not None and p.req[0] == 'torn':
                self._reply(p)
        elif who == 'every':
            for q in [q.main for q in list(self.procs.values()) if q.kind == 'main']:
                self.kill_main(q)
        else:
            if main is None:        # an orphan: kill just it
                self._kill(p)
            else:
                self.kill_main(main, orphans=bool(act.get('orphans')))

    def _cleanup(self):
        for p in list(self.procs.values()):
            if p.state in ('running', 'parked'):
                p.exit = p.exit or 'killed'
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                if p.kind == 'main':
                    try:
                        os.waitpid(p.pid, 0)
                    except OSError:
                        pass
                if p.pidfd is not None:
                    po = select.poll()
                    po.register(p.pidfd, select.POLLIN)
                    po.poll(10000)
                    os.close(p.pidfd)
                    p.pidfd = None
                p.state = 'dead'
        for a, b in self.socks:
            a.close()
            b.close()
        self.socks = []
        while True:
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    break
            except OSError:
                break


def _join_threads(limit=12.0):
    """What the interpreter does at exit: wait for the threads that are still running."""
    if len(threading.enumerate()) < 2:
        return []

    class Late(BaseException):
        pass

    def late(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        threading._shutdown()
    except Late:
        return sorted(t.name for t in threading.enumerate() if not t.daemon and t is not threading.main_thread())
    except BaseException:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return []


def _main_child(sim, m, vpid, ch):
    """Runs in the forked process of a simulated main program."""
    root = sim.root
    for fd, name in ((1, 'stdout'), (2, 'stderr')):
        f = _real['open'](os.path.join(root, 'std', '%s.%s' % (m['name'], name)),
                          os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
        _real['close'](f)
    sys.stdout = open(1, 'w', closefd=False)
    sys.stderr = open(2, 'w', buffering=1, closefd=False, errors='backslashreplace')
    sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
    os.chdir(os.path.join(root, m.get('cwd', 'cwd')))
    os.environ['HOME'] = os.path.join(root, 'home')
    os.environ['TMPDIR'] = os.path.join(root, 'tmp')
    import tempfile
    tempfile.tempdir = None
    simpool.become(vpid, ch)
    status = {}
    try:
        ret = m['fn']()
        status = {'status': 'ok', 'ret': ret}
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        status = {'status': 'ok' if code == 0 else 'error', 'code': code, 'exc': 'SystemExit(%r)' % (e.code,)}
    except BaseException as e:
        tb = traceback.format_exc()
        status = {'status': 'error', 'exc': type(e).__name__, 'msg': str(e)[:500], 'tb': tb[-3000:]}
        e.__traceback__ = None
        del e
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        pass
    gc.collect()
    status['threads_left'] = _join_threads()
    status['open_files'] = sorted(r for r in STATE.openfiles.values())
    seams.sim('mainexit', '', status=status)
    _real['_exit'](0 if status['status'] == 'ok' else 1)
