import copy
import hashlib
import math
import random

from .. import core, mem
from ..engine import Skip, Violation
from ..util import sha

UNITS = {'quick': 640, 'thorough': 40000}
PER_UNIT = {'quick': 6, 'thorough': 10}
LEVEL = 'exploration'
RULE = ('a unit is a random sequence of calls of compiled kernels (and of the Python functions around them) with random '
        'sizes, types and parameters; each execution runs it in one process under a simulated allocator, which fails '
        'chosen allocations, fills new memory with junk and surrounds every array and buffer with guard pages and '
        'canaries; non-trivial = distinct (kernel, allocation that fails, sizes) reached')
MEASURE = 'hash of (kernel, argument sizes, allocation number, outcome)'
REAL = 'every compiled kernel with its bindings (same sources and flags), wrappers in riptide.libffa and running_medians'
STUB = 'the heap: malloc, operator new and the numpy array allocator'
ASSUME = ['the result of a call is correct when it equals that of the same call made without any fault']
boot = mem.boot

KERNELS = ['rollback', 'fused_rollback_add', 'circular_prefix_sum', 'ffa2', 'snr1', 'snr2', 'downsample', 'periodogram',
           'periodogram', 'periodogram', 'running_median', 'running_median', 'benchmark_ffa2',
           'w_ffa1', 'w_boxcar', 'w_downsample', 'w_rmed', 'w_frmed', 'w_fold', 'w_search']
# pybind11 aborts the process when it finds no memory for the text of a TypeError: its allocations
# only fail one at a time, in calls that do not raise otherwise
SMALL = 8192
DT = ['f4', 'f4', 'f4', 'f4', 'f8', 'i4', 'u1']


def size(r, big=20000):
    return r.choice([1, 2, 3, 7, 8, 16, r.randint(1, 40), r.randint(20, 500), r.randint(100, 3000), r.randint(1000, big), 0])


def gen_call(r):
    k = r.choice(KERNELS)
    c = {'k': k, 'seed': r.getrandbits(32), 'dt': r.choice(DT), 'lay': r.choice(['c'] * 8 + ['s', 'f'])}
    if k in ('rollback', 'fused_rollback_add'):
        c.update(n=size(r), shift=r.choice([0, 1, r.randint(0, 3000), 2 ** 63, 2 ** 64 - 1]))
        if k != 'rollback' and r.random() < 0.1:
            c['n2'] = size(r)
    elif k == 'circular_prefix_sum':
        c.update(n=size(r, 3000), nsum=r.choice([0, 1, 2, size(r), size(r), 2 * size(r)]))
    elif k == 'ffa2':
        c.update(n=r.choice([1, 2, 3, 4, 5, 7, 8, 31, 64, r.randint(1, 200), 0]), p=r.choice([1, 2, 3, 16, 33, r.randint(1, 150), 0]))
        if r.random() < 0.05:
            c.update(n=r.choice([1, 20000]), p=r.choice([1, 7]))
    elif k == 'benchmark_ffa2':
        c.update(n=r.choice([0, 1, 2, 5, 30]), p=r.choice([0, 1, 17, 40]), loops=r.choice([0, 1, 3]))
    elif k in ('snr1', 'snr2', 'w_boxcar'):
        c.update(n=r.choice([0, 1, 1, 2, 3, 20]), p=r.choice([0, 1, 2, 3, 8, 50, 257, r.randint(1, 600)]),
                 widths=gen_widths(r), std=r.choice([1.0, 2.5, 0.0, -1.0, float('nan'), 1e-40]) if r.random() < 0.2 else 1.0)
        if r.random() < 0.03:
            c.update(n=1, p=r.choice([1200000, 2600000]), widths=[1, 5])
    elif k in ('downsample', 'w_downsample'):
        c.update(n=size(r), f=r.choice([1.0, 1.0000001, 2, 1.5, 3.999999, r.uniform(1, 10), r.uniform(1, 3000), 'n', 'n-', 'n+', 0.3,
                                        -1.0, float('nan'), float('inf'), 1e18]))
    elif k in ('running_median', 'w_rmed', 'w_frmed'):
        c.update(n=min(size(r, 6000), 6000), w=r.choice([0, 1, 2, 3, 5, 11, 101, r.randint(0, 400) | 1, 'n', 'n-1', 'n-2', 'n+1', 2 ** 62 + 1,
                                               2 ** 64 - 1]), minpts=r.choice([1, 3, 11, 101, 10, 0, -3]))
        if isinstance(c['w'], str):     # costs n ** 3
            c['n'] = min(c['n'], 700)
    elif k == 'w_ffa1':
        c.update(n=size(r, 6000), p=r.choice([0, 1, 2, 3, 16, 100, 'n', -1]))
    elif k == 'w_fold':
        c.update(n=max(2, size(r, 6000)), q=r.choice([0.003, 0.05, 0.3, 0.5, 1.0]), bins=r.choice([1, 2, 8, 32, 200]),
                 sub=r.choice([None, 1, 2, 3, 10]))
    else:
        b = r.choice([2, 3, 4, 8, 8, 16, 16, 40])
        n = r.choice([1, 2, 17, r.randint(20, 400), r.randint(100, 2500), r.randint(100, 2500), r.randint(2000, 9000)])
        bm = b + r.choice([0, 0, 1, 2, 4, b, 100])
        p0 = r.choice([1.0, 1.0, 1.000001, 1.03, 2.0, r.uniform(1, 5)])
        c.update(n=n, tsamp=r.choice([1.0, 0.01, 0.1, 1e-9]), b=[b, bm], p=[p0, p0 * r.choice([1.0000001, 1.01, 1.5, 2, 4, r.uniform(1.01, 30), 1e4])],
                 widths=r.choice([[1], [1, 2], list(range(1, b)), gen_widths(r)]))
        if r.random() < 0.06:
            c.update(r.choice([{'tsamp': 0.0}, {'tsamp': float('nan')}, {'tsamp': float('inf')}, {'p': [0.5, 1.0]}, {'p': [1.0, float('inf')]},
                               {'p': [1.0, 1e300]}, {'p': [float('nan'), 2.0]}, {'p': [2.0, 1.0]}, {'b': [0, 5]}, {'b': [1, 5]},
                               {'b': [10, 8]}, {'b': [b, 10 ** 12]}, {'b': [10 ** 6, 10 ** 6 + 2]}, {'p': [-1.0, 2.0]}]))
        c['n'] = min(c['n'], 4000) if len(c['widths']) > 20 else c['n']
    return c


def gen_widths(r):
    return r.choice([[1], [1], [1, 2, 3], [1, 2, 4], [3, 1, 2], [0], [], [1, 0], ['p-1'], ['p'], ['p+1'], [-1], [1, -3], [2 ** 40], ['2p'],
                     [1, 2, 3, 4, 6, 9, 13]])


def resolve(w, p):
    return [max(0, {'p': p, 'p-1': p - 1, 'p+1': p + 1, '2p': 2 * p}[x]) if isinstance(x, str) else x for x in w]


# ------------------------------------------------------------ calls ----

def array(c, shape, seed, dt=None):
    import numpy as np
    g = np.random.Generator(np.random.PCG64(seed))
    dt = dt or c['dt']
    n = int(np.prod(shape))
    x = g.standard_normal(n) * 20
    x = np.clip(x + 100, 0, 255) if dt == 'u1' else x
    if c['lay'] == 's' and len(shape) == 1:
        return np.repeat(x.astype(dt), 2)[::2]
    x = x.astype(dt).reshape(shape)
    if c['lay'] == 'f' and len(shape) == 2:
        return np.asfortranarray(x)
    return np.array(x)


def prepare(c):
    """(function of no argument, arrays it is given)"""
    import numpy as np
    import riptide
    import riptide.libcpp as L
    k, s = c['k'], c['seed']
    if k == 'rollback':
        x = array(c, (c['n'],), s)
        return (lambda: L.rollback(x, c['shift'])), [x]
    if k == 'fused_rollback_add':
        x, y = array(c, (c['n'],), s), array(c, (c.get('n2', c['n']),), s + 1)
        return (lambda: L.fused_rollback_add(x, y, c['shift'])), [x, y]
    if k == 'circular_prefix_sum':
        x = array(c, (c['n'],), s)
        return (lambda: L.circular_prefix_sum(x, c['nsum'])), [x]
    if k == 'ffa2':
        x = array(c, (c['n'], c['p']), s)
        return (lambda: L.ffa2(x)), [x]
    if k == 'benchmark_ffa2':
        return (lambda: L.benchmark_ffa2(c['n'], c['p'], c['loops']) * 0.0), []
    if k in ('snr1', 'snr2', 'w_boxcar'):
        x = array(c, (c['p'],) if k == 'snr1' else (c['n'], c['p']), s)
        w = np.array(resolve(c['widths'], c['p']), dtype='u8' if all(isinstance(v, str) or v >= 0 for v in c['widths']) else 'i8')
        if k == 'w_boxcar':
            return (lambda: riptide.boxcar_snr(x, w, c['std'])), [x, w]
        return (lambda: getattr(L, k)(x, w, c['std'])), [x, w]
    if k in ('downsample', 'w_downsample'):
        x = array(c, (c['n'],), s)
        f = {'n': float(c['n']), 'n-': math.nextafter(c['n'], 0), 'n+': math.nextafter(c['n'], 1e9)}.get(c['f'], c['f']) \
            if isinstance(c['f'], str) else c['f']
        fn = L.downsample if k == 'downsample' else riptide.downsample
        return (lambda: fn(x, f)), [x]
    if k in ('running_median', 'w_rmed', 'w_frmed'):
        x = array(c, (c['n'],), s)
        w = {'n': c['n'], 'n-1': c['n'] - 1, 'n-2': c['n'] - 2, 'n+1': c['n'] + 1}.get(c['w'], c['w']) \
            if isinstance(c['w'], str) else c['w']
        if k == 'w_frmed':
            return (lambda: riptide.fast_running_median(x, w, c['minpts'])), [x]
        fn = L.running_median if k == 'running_median' else riptide.running_median
        return (lambda: fn(x, w)), [x]
    if k == 'w_ffa1':
        x = array(c, (c['n'],), s)
        p = c['n'] if c['p'] == 'n' else c['p']
        return (lambda: riptide.ffa1(x, p)), [x]
    if k == 'w_fold':
        x = array(c, (c['n'],), s, 'f4')
        t = riptide.TimeSeries(x, 0.01)
        return (lambda: t.fold(c['q'] * t.length, c['bins'], subints=c['sub'])), [x]
    x = array(c, (c['n'],), s)
    b0, b1 = c['b']
    w = np.array(resolve(c['widths'], b0), dtype='u8' if all(isinstance(v, str) or v >= 0 for v in c['widths']) else 'i8')
    p0, p1 = c['tsamp'] * b0 * c['p'][0], c['tsamp'] * b0 * c['p'][1]
    if k == 'w_search':
        t = riptide.TimeSeries(array(c, (c['n'],), s, 'f4'), c['tsamp'])
        return (lambda: res_search(riptide.ffa_search(t, period_min=p0, period_max=p1, bins_min=b0, bins_max=b1, deredden=False))), [t.data]
    return (lambda: L.periodogram(x, c['tsamp'], w, p0, p1, b0, b1)), [x, w]


def res_search(out):
    return [out[0].data, out[1].periods, out[1].foldbins, out[1].snrs]


def digest(o):
    import numpy as np
    if isinstance(o, (tuple, list)):
        return [digest(x) for x in o]
    if isinstance(o, np.ndarray):
        return [str(o.dtype), list(o.shape), hashlib.sha256(np.ascontiguousarray(o).tobytes()).hexdigest()]
    return repr(o)


def heavy(c):
    """Requests that only ask for too much memory or time are left out."""
    if c['k'] == 'w_frmed' and isinstance(c['w'], int) and c['w'] > 10 ** 9:
        return True
    return False


def sequence(calls, faults, guarded, fill):
    """Runs in a process of its own."""
    import gc
    import sys
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    v = mem.vmem
    v.install()
    v.guard(1 if guarded else 0, fill)
    steps = [prepare(c) for c in calls]
    keep = [[a.tobytes() for a in arrs] for _, arrs in steps]
    out = []
    one(steps[0][0])
    usual = [one(fn)[0] for fn, arrs in steps]        # whatever is set up on first use
    gc.collect()
    for i, f in enumerate(faults):
        fn, arrs = steps[f['i']]
        rc = [sys.getrefcount(a) for a in arrs]
        gc.collect()
        s0 = v.state()
        d = {'count': 0, 'failed': 0}
        at = 0
        least = f.get('min', 0)
        if f['how'] != 'nth' or usual[f['i']] != 'ok':
            least = max(least, SMALL)
        if f['how'] != 'none':
            mask = f['mask'] if usual[f['i']] == 'ok' else 1
            if f['how'] in ('nth', 'from') and 'frac' in f:
                v.arm(mask, 0, 0, least)
                one(fn)
                n = v.disarm()['count']
                at = 1 + int(f['frac'] * n) if n else 0
            else:
                at = f.get('n', 0)
            if f['how'] == 'cap':
                v.arm(mask, 0, 0, 0, max(f['cap'], SMALL))
            elif at:
                v.arm(mask, at if f['how'] == 'nth' else 0, at if f['how'] == 'from' else 0, least)
        st, res = one(fn)
        if f['how'] != 'none' and (at or f['how'] == 'cap'):
            d = v.disarm()
        s1 = v.state()
        rc1 = [sys.getrefcount(a) for a in arrs]
        out.append({'st': st, 'res': res, 'failed': d['failed'], 'at': at, 'live': s1['live'] - s0['live'],
                    'bytes': s1['bytes'] - s0['bytes'], 'bad': s1['bad'], 'where': s1['where'],
                    'refs': [b - a for a, b in zip(rc, rc1)],
                    'inputs': [j for j, (a, b) in enumerate(zip(arrs, keep[f['i']])) if a.tobytes() != b]})
        if s1['bad']:
            break
    return out


def one(fn):
    try:
        r = fn()
    except Exception as e:
        e.__traceback__ = None
        return 'exc', type(e).__name__
    return 'ok', digest(r)


def plan(ctx, r, tier, unit):
    calls = [c for c in (gen_call(r) for _ in range(r.randint(2, 6))) if not heavy(c)]
    if not calls:
        return
    for k in range(PER_UNIT[tier]):
        fl = []
        for _ in range(r.randint(3, 10)):
            x = r.random()
            f = {'i': r.randrange(len(calls)), 'how': 'none'}
            if k and x < 0.75:
                f['how'] = r.choice(['nth', 'nth', 'nth', 'from', 'cap'])
                f['mask'] = r.choice([3, 3, 2, 1] if f['how'] == 'nth' else [1, 2])
                if f['how'] == 'cap':
                    f['cap'] = r.choice([SMALL, 20000, 60000])
                else:
                    f['min'] = r.choice([0, 0, 24, 64])
                    if r.random() < 0.6:
                        f['frac'] = r.random()
                    else:
                        f['n'] = r.randint(1, 20)
            fl.append(f)
        for i in sorted({f['i'] for f in fl}):
            fl.append({'i': i, 'how': 'none'})
        yield {'calls': calls, 'faults': fl, 'fill': r.choice([0xCB, 0x00, 0x7F, 0xFF])}


def reference(calls):
    out = []
    for c in calls:
        fn, arrs = prepare(c)
        out.append(one(fn))
    return out


def show(c):
    return '%s(%s)' % (c['k'].replace('w_', ''), ', '.join('%s=%s' % (k, v) for k, v in c.items() if k not in ('k', 'seed', 'lay')))


def execute(ctx, spec):
    calls = spec['calls']

    def fn():
        def f():
            import warnings
            import numpy as np
            warnings.simplefilter('ignore')
            np.seterr(all='ignore')
            return reference(calls)
        return mem.child(f)
    ref = ctx.cached('p15', calls, fn)
    if ref[0] == 'timeout':
        raise Skip('reference takes too long')
    if ref[0] == 'err':
        raise core.HarnessError(ref[1])
    if ref[0] == 'signal':
        for c in calls:
            one_ref = mem.child(lambda: reference([c]))
            if one_ref[0] == 'signal':
                return [Violation('%s kills the process (signal %s)' % (show(c), one_ref[1]), 'P15:crash')]
        return [Violation('the sequence %s kills the process (signal %s)' % ([show(c) for c in calls], ref[1]), 'P15:crash')]
    ref = ref[1]
    got = mem.child(lambda: sequence(calls, spec['faults'], True, spec['fill']))
    ctx.stats['executions'] += 1
    ctx.stats['steps'] += len(spec['faults'])
    if got[0] == 'timeout':
        raise Skip('takes too long')
    if got[0] == 'err':
        if got[1].startswith('MemoryError'):
            raise Skip('memory of the harness')
        raise core.HarnessError(got[1])
    if got[0] == 'signal':
        for i, c in enumerate(calls):
            g = mem.child(lambda: sequence([c], [{'i': 0, 'how': 'none'}], True, spec['fill']))
            if g[0] == 'signal':
                return [Violation('%s accesses memory outside its arrays and buffers (signal %s with guard pages around '
                                  'them)' % (show(c), g[1]), 'P15:bounds')]
        for j in range(len(spec['faults'])):
            g = mem.child(lambda: sequence(calls, spec['faults'][:j + 1], True, spec['fill']))
            if g[0] == 'signal':
                f = spec['faults'][j]
                return [Violation('%s: the process dies from signal %s%s' % (show(calls[f['i']]), g[1], when(f)), 'P15:crash')]
        return [Violation('the sequence %s dies from signal %s' % ([show(c) for c in calls], got[1]), 'P15:crash')]
    ctx.sample({'calls': [show(c) for c in calls], 'outcomes': [
        '%s %s' % (f['how'], o['st'] if o['st'] == 'ok' else o['res']) for f, o in zip(spec['faults'], got[1])]})
    ctx.digests['last'] = sha(repr(got[1]))
    for j, (f, o) in enumerate(zip(spec['faults'], got[1])):
        c = calls[f['i']]
        who = '%s (call %d of the sequence)%s' % (show(c), j + 1, when(f, o))
        r = ref[f['i']]
        if o['failed']:
            ctx.fault_counts['allocation failure'] += o['failed']
            ctx.stats['calls in which an allocation fails'] += 1
        ctx.states.add(sha('%s %s %s %s' % (c['k'], show(c), o['at'], o['st']))[:12])
        if o['bad']:
            return [Violation('%s: %s' % (who, o['where']), 'P15:bounds')]
        if o['st'] == 'exc' and not o['failed'] and r[0] == 'ok':
            return [Violation('%s raises %s although nothing fails and it succeeds when run alone' % (who, o['res']), 'P15:later')]
        if o['st'] == 'ok' and (r[0] != 'ok' or o['res'] != r[1]):
            return [Violation('%s returns %s, it should %s' % (
                who, 'another result than without failures' if r[0] == 'ok' else 'a result',
                'return the same' if r[0] == 'ok' else 'raise ' + r[1]), 'P15:result')]
        if o['live']:
            return [Violation('%s %s and leaves %d blocks (%d bytes) allocated' % (
                who, 'returns' if o['st'] == 'ok' else 'raises ' + o['res'], o['live'], o['bytes']), 'P15:leak')]
        if any(o['refs']):
            return [Violation('%s keeps references to its inputs (%s)' % (who, o['refs']), 'P15:leak')]
        if o['inputs']:
            return [Violation('%s modifies its input array %s' % (who, o['inputs']), 'P15:inputs')]
    return []


def when(f, o=None):
    if f['how'] == 'none':
        return ''
    if f['how'] == 'cap':
        return ' when allocations above %d bytes fail' % f['cap']
    at = o['at'] if o else f.get('n', '?')
    return ' when allocation %s%s fails' % (at, ' and all later ones' if f['how'] == 'from' else '')


def shrinks(spec):
    if len(spec['calls']) > 1:
        for i in range(len(spec['calls'])):
            fl = [dict(f, i=f['i'] - (f['i'] > i)) for f in spec['faults'] if f['i'] != i]
            if fl:
                yield {'calls': spec['calls'][:i] + spec['calls'][i + 1:], 'faults': fl, 'fill': spec['fill']}
    if len(spec['faults']) > 1:
        for i in range(len(spec['faults'])):
            yield dict(copy.deepcopy(spec), faults=spec['faults'][:i] + spec['faults'][i + 1:])
    for i, c in enumerate(spec['calls']):
        for k in ('n', 'p', 'nsum'):
            if isinstance(c.get(k), int) and c[k] > 2:
                for v in (c[k] // 2, c[k] - 1):
                    s = copy.deepcopy(spec)
                    s['calls'][i][k] = v
                    yield s
