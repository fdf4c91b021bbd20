import copy

from .. import core, mem, objects as O, ops
from ..engine import Skip, Violation
from ..util import sha

UNITS = {'quick': 480, 'thorough': 30000}
PER_UNIT = {'quick': 4, 'thorough': 6}
LEVEL = 'exploration'
RULE = ('a unit is a random history of operations on a store of time series and of objects made from them, executed twice side '
        'by side: in the mirror every in-place operation is replaced by its copying variant and conversely; in the first store '
        'chosen operations meet failing memory allocations; non-trivial = distinct (operation, arguments, fault, outcome, '
        'preceding operation on that slot)')
MEASURE = 'hash of (operation, previous operation of the slot, in place or not, fault, outcome)'
REAL = 'TimeSeries, folding, search, candidates, compiled kernels'
STUB = 'the heap: malloc, operator new and the numpy array allocator'
ASSUME = ['objects that share arrays or metadata by design (search results with already_normalised, containers) are dropped '
          'before one of them is modified in place']
boot = mem.boot
SMALL = 8192
INOUT = ('normalise', 'deredden', 'downsample')
FAULTED = INOUT + ('fold', 'copy', 'search', 'cand', 'peaks', 'arrays', 'rmed')
WRITES = INOUT + ('mutate', 'setmeta')


class Mirror(ops.Store):
    """The same history with in-place and copying variants exchanged."""

    def _apply(self, op):
        if op['op'] not in INOUT:
            return super()._apply(op)
        t = self.get(op['s'], ('ts',))
        if op['to'] is None:
            super()._apply(dict(op, to=op['s']))
            return self.s[op['s']]
        self.s['tmp'] = t.copy()
        try:
            super()._apply(dict(op, s='tmp', to=None))
        except BaseException:
            self.s.pop('tmp')
            raise
        self.s[op['to']] = self.s.pop('tmp')
        return self.s[op['to']]


class Real(ops.Store):
    off = None

    def _apply(self, op):
        try:
            out = super()._apply(op)
        finally:
            if self.off:
                self.d = self.off()
                self.off = None
        if op['op'] in INOUT:
            return self.s[op['s'] if op['to'] is None else op['to']]
        return out

    def apply(self, op):
        try:
            return super().apply(op)
        except MemoryError:
            return ('exc', 'MemoryError')


class Alias:
    def __init__(self):
        self.g = {}
        self.n = 0

    def fresh(self, k):
        self.n += 1
        self.g[k] = self.n

    def join(self, ks):
        old = {self.g[k] for k in ks if k in self.g}
        self.n += 1
        for k in list(self.g):
            if self.g[k] in old:
                self.g[k] = self.n
        for k in ks:
            self.g[k] = self.n

    def others(self, s):
        return [k for k in self.g if k != s and self.g[k] == self.g.get(s)]

    def after(self, op):
        o, to = op['op'], op.get('to')
        if o in ('new', 'copy', 'fold') + INOUT:
            if to is not None:
                self.fresh(to)
        elif o in ('search', 'cand', 'unpack', 'pack'):
            src = op['ss'] if o == 'pack' else [op['s']]
            dst = [x for x in (to, op.get('to2')) if x is not None]
            for x in dst:
                if x not in src:
                    self.g.pop(x, None)
            self.join(list(src) + dst)


def history(steps, fill):
    """Runs in a process of its own: (problem or None, log)."""
    import gc
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    v = mem.vmem
    v.install()
    v.guard(fill is not None, fill or 0)
    a, b, al = Real(), Mirror(), Alias()
    log, prev = [], {}
    forget = set()
    for i, op in enumerate(steps):
        op = dict(op)
        fault = op.pop('fault', None)
        name = describe(op)
        s = op.get('s')
        if op['op'] in WRITES and not (op['op'] in INOUT and op['to'] is not None):
            for k in al.others(s):
                a.s.pop(k, None), b.s.pop(k, None), al.g.pop(k, None)
        before = {k: O.canon(x) for k, x in a.s.items()}
        rb = b.apply(op)
        armed, a.d = None, {'failed': 0}
        if fault and rb[0] != 'na':
            armed = arm(v, a, op, fault, rb[0])
        if armed:
            a.off = v.disarm
        ra = a.apply(op)
        d = a.d
        if ra[0] == 'exc' and d['failed'] and rb[0] == 'ok':
            for k in before:
                if k not in a.s:
                    return ('%s fails for lack of memory and removes an object' % name, 'P14:failed'), log
                w = O.differ(before[k], O.canon(a.s[k]))
                if w:
                    return ('operation %d, %s, fails (%s, %s) and has changed %s: %s' % (
                        i + 1, name, ra[1], when(fault, armed), slot(k, s), w), 'P14:failed'), log
            log.append((op['op'], ra[1], d['failed'], sha('%s %s %s' % (name, prev.get(s), armed))[:12]))
            ra = a.apply(op)
        else:
            log.append((op['op'], ra[0] if ra[0] != 'exc' else ra[1], d['failed'], sha('%s %s %s' % (name, prev.get(s), armed))[:12]))
        if ra[0] == 'na' and rb[0] == 'na':
            continue
        if ra[0] != rb[0]:
            return ('operation %d, %s: %s, while with in-place and copying variants exchanged it %s' % (
                i + 1, name, said(ra), said(rb)), 'P14:variants'), log
        mine = set()
        if ra[0] == 'ok':
            mine = {op.get('to'), op.get('to2')}
            if op['op'] in WRITES and op.get('to') is None:
                mine.add(s)
        for k in before:
            if k in mine:
                continue
            w = O.differ(before[k], O.canon(a.s[k])) if k in a.s else 'gone'
            if w:
                return ('operation %d, %s, %s and has changed %s: %s' % (
                    i + 1, name, 'succeeds' if ra[0] == 'ok' else 'raises ' + ra[1], slot(k, s), w),
                    'P14:untouched' if ra[0] == 'ok' else 'P14:failed'), log
        if ra[0] == 'ok':
            w = O.differ(rb[1], ra[1])
            if w:
                return ('operation %d, %s: result differs from that of the same history with in-place and copying variants '
                        'exchanged: %s' % (i + 1, name, w), 'P14:variants'), log
            al.after(op)
            prev[s] = name
        for k in sorted(set(a.s) | set(b.s), key=str):
            if k in a.s and k in b.s:
                w = O.differ(O.canon(b.s[k]), O.canon(a.s[k]))
                if w:
                    return ('after operation %d, %s, %s differs from the same history with in-place and copying variants '
                            'exchanged: %s' % (i + 1, name, slot(k, s), w), 'P14:variants'), log
    return None, log


def slot(k, s):
    return 'its operand' if k == s else 'object %s' % k


def said(r):
    return 'succeeds' if r[0] == 'ok' else 'raises ' + r[1] if r[0] == 'exc' else 'does not apply'


def describe(op):
    o = {k: x for k, x in op.items() if k not in ('op', 'obj')}
    if op['op'] in INOUT:
        o['inplace'] = o.pop('to') is None
    if op['op'] == 'new':
        o['obj'] = '%s n=%s' % (op['obj']['k'], op['obj'].get('n'))
    return '%s(%s)' % (op['op'], ', '.join('%s=%s' % x for x in o.items()))


def arm(v, a, op, f, usual):
    least = f.get('min', 0)
    if f['how'] != 'nth' or usual != 'ok':
        least = max(least, SMALL)
    mask = f['mask'] if usual == 'ok' else 1
    if f['how'] == 'cap':
        v.arm(mask, 0, 0, 0, max(f['cap'], SMALL))
        return 'sizes'
    n = f.get('n')
    if 'frac' in f:
        tmp = Real()
        tmp.s = {k: ops.clone(x) for k, x in a.s.items() if k == op.get('s')}
        tmp.off = v.disarm
        v.arm(mask, 0, 0, least)
        tmp.apply(op)
        k = tmp.d['count']
        if not k:
            return None
        n = 1 + int(f['frac'] * k)
    v.arm(mask, n if f['how'] == 'nth' else 0, n if f['how'] == 'from' else 0, least)
    return n


def when(f, n):
    if f['how'] == 'cap':
        return 'allocations above %d bytes fail' % max(f['cap'], SMALL)
    return 'allocation %s%s fails' % (n, ' and all later ones' if f['how'] == 'from' else '')


def plan(ctx, r, tier, unit):
    for j in range(PER_UNIT[tier]):
        kinds, steps = {}, []
        big = r.random() < 0.04
        for _ in range(r.choice([4, 8, 14, 24])):
            op = ops.gen_op(r, kinds, plots=0.0)
            if op['op'] == 'new' and r.random() < 0.5:
                op['obj'] = O.gen_ts(r, big=r.random() < 0.7)
                ops.tidy(op['obj'])
                kinds[op['to']] = 'ts'
                if big:
                    op['obj']['n'] = r.choice([70000, 140001])
                    big = False
            if op['op'] == 'new' and op['obj']['k'] == 'ts' and r.random() < 0.08:
                op['obj']['special'] = True
            if j and op['op'] in FAULTED and r.random() < 0.4:
                f = {'how': r.choice(['nth', 'nth', 'nth', 'from', 'cap'])}
                f['mask'] = r.choice([3, 3, 2, 1] if f['how'] == 'nth' else [1, 2])
                if f['how'] == 'cap':
                    f['cap'] = r.choice([SMALL, 9000, 12000, 20000])
                else:
                    f.update(min=r.choice([0, 0, 24, 500]))
                    if r.random() < 0.75:
                        f['frac'] = r.random()
                    else:
                        f['n'] = r.randint(1, 20)
                op['fault'] = f
            steps.append(op)
        yield {'steps': steps, 'fill': r.choice([0xCB, 0x7F, None, None, None, None, None])}


def execute(ctx, spec):
    got = mem.child(lambda: history(spec['steps'], spec['fill']))
    ctx.stats['executions'] += 1
    if got[0] == 'timeout':
        raise Skip('takes too long')
    if got[0] == 'err':
        raise core.HarnessError(got[1])
    if got[0] == 'signal':
        return [Violation('the history %s kills the process (signal %s)' % ([describe(o) for o in spec['steps']][-6:], got[1]),
                          'P14:crash')]
    prob, log = got[1]
    ctx.stats['steps'] += len(log)
    for o, res, failed, h in log:
        ctx.states.add(h)
        if failed:
            ctx.fault_counts['allocation failure'] += failed
            ctx.stats['operations in which an allocation fails'] += 1
        if res not in ('ok', 'na'):
            ctx.stats['operations that raise'] += 1
    ctx.sample({'operations': [describe(o) + (' with failing memory' if 'fault' in o else '') for o in spec['steps']],
                'outcomes': [x[1] for x in log]})
    ctx.digests['last'] = sha(repr((prob, log)))
    if prob:
        return [Violation(*prob)]
    return []


def shrinks(spec):
    n = len(spec['steps'])
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            st = spec['steps'][:i] + spec['steps'][i + k:]
            if st:
                yield dict(spec, steps=st)
        k //= 2
    for i, op in enumerate(spec['steps']):
        if 'fault' in op:
            s = copy.deepcopy(spec)
            del s['steps'][i]['fault']
            yield s
        if op['op'] == 'new' and op['obj'].get('n', 0) > 40:
            for m in (40, op['obj']['n'] // 2):
                s = copy.deepcopy(spec)
                s['steps'][i]['obj']['n'] = m
                yield s
        if op['op'] == 'new' and op['obj'].get('meta'):
            s = copy.deepcopy(spec)
            s['steps'][i]['obj']['meta'] = {'dm': 0.0}
            yield s
