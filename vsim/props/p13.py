import copy
import os

from .. import core, mem, objects as O, ops, scenario as S, threads
from ..engine import Skip, Violation
from ..util import sha
from . import p09

UNITS = {'quick': 200, 'thorough': 12000}
PER_UNIT = {'quick': 8, 'thorough': 16}
LEVEL = 'exploration'
RULE = ('a unit is a set of shared objects and two to four threads that each make a few library calls on them; it is executed '
        'under several seeded schedules that switch threads between source lines or bytecodes of riptide (or basic blocks of '
        'native code that runs without the interpreter lock), some with a call interrupted by an exception; non-trivial = '
        'distinct schedules that switch at least once')
MEASURE = 'hash of the sequence of (thread switched to, position of the thread it leaves)'
REAL = 'the library and its compiled kernels in real threads, one running at a time'
STUB = 'the thread scheduler; locks created by riptide'
ASSUME = ['a call made alone in a fresh process gives the expected result', 'plots are left out: pyplot is not thread-safe']
boot = threads.boot
EXC = {'memory': MemoryError, 'interrupt': threads.Interrupted}


class Store(ops.Store):
    """Operations that modify nothing, on shared objects and the thread's own results."""

    def __init__(self, shared, files, tag):
        super().__init__()
        self.s = dict(shared)
        self.files, self.tag, self.k = files, tag, 0

    def do_json(self, op):
        import riptide
        o = self.get(op['s'])
        self.k += 1
        p = os.path.join(self.files['dir'], 'o-%s-%d.json' % (self.tag, self.k))
        riptide.save_json(p, o)
        out = riptide.load_json(p)
        self.s[op['to']] = out
        return out

    def do_dict(self, op):
        o = self.get(op['s'], ('ts', 'pg', 'cand'))
        out = type(o).from_dict(o.to_dict())
        self.s[op['to']] = out
        return out

    def do_load(self, op):
        import riptide
        f = self.files[op['i'] % 2]
        ld = riptide.TimeSeries.from_presto_inf if f.endswith('.inf') else riptide.TimeSeries.from_sigproc
        out = ld(f)
        self.s[op['to']] = out
        return out

    def do_gen(self, op):
        import riptide
        out = riptide.TimeSeries.generate(op['n'] * 0.01, 0.01, op['p'], ducy=op['d'], amplitude=op['a'], stdnoise=0.0)
        self.s[op['to']] = out
        return out

    def do_free(self, op):
        import numpy as np
        import riptide
        from riptide.clustering import cluster1d
        from riptide.ffautils import generate_width_trials
        x = np.random.Generator(np.random.PCG64(op['seed'])).random(op['n'])
        y = x.astype('f4').reshape(-1, 10)
        return [riptide.ffaprd(op['n'], 7 + op['seed'] % 5), riptide.ffafreq(op['n'], 9), riptide.ffa2(y), riptide.ffa1(x, 13),
                riptide.downsample(x, 1.7), riptide.boxcar_snr(y, [1, 2, 3]), generate_width_trials(op['n']),
                [list(map(int, c)) for c in cluster1d(x, 0.01)], riptide.running_median(y.ravel(), 11)]

    def do_hdiag(self, op):
        from riptide.pipeline.harmonic_testing import hdiag
        from riptide.peak_detection import Peak
        kw = dict(zip(Peak._fields, [0] * len(Peak._fields)))
        a = Peak(**dict(kw, period=1.0, freq=1.0, width=3, ducy=0.03, snr=20.0, dm=5.0))
        b = Peak(**dict(kw, period=1.0 / op['x'], freq=op['x'], width=3, ducy=0.05, snr=9.0, dm=5.1))
        return {k: v for k, v in sorted(hdiag(a, b, 600.0, 1200.0, 1500.0).items())}


def gen_ops(r, kinds, n, base):
    """n operations on the shared slots (and on results of the same thread)."""
    out, mine = [], dict(kinds)
    free = base
    while len(out) < n:
        if r.random() < 0.35:
            o = r.choice(['json', 'dict', 'load', 'load', 'gen', 'free', 'hdiag'])
            op = {'op': o, 'to': free}
            if o in ('json', 'dict'):
                op['s'] = r.choice(sorted(mine))
                if mine[op['s']] in ('arr', 'val') and o == 'dict':
                    continue
                mine[free] = mine[op['s']]
            elif o == 'load':
                op['i'] = r.randrange(2)
                mine[free] = 'ts'
            elif o == 'gen':
                op.update(n=r.choice([500, 1000, 2003]), p=r.choice([0.5, 1.0, 1.37]), d=r.choice([0.02, 0.1]), a=r.choice([1.0, 10.0]))
                mine[free] = 'ts'
            elif o == 'free':
                op = {'op': o, 'n': r.choice([100, 1000, 2000]), 'seed': r.getrandbits(20)}
            else:
                op = {'op': o, 'x': r.choice([2.0, 3.0001, 1.5, 7.1])}
            out.append(op)
            free += 2
            continue
        k2 = dict(mine)
        op = ops.gen_op(r, k2, nslots=max(mine) + 3, plots=0.0)
        if op['op'] in ('new', 'mutate', 'setmeta', 'pack', 'unpack', 'plot'):
            continue
        if op['op'] in ('normalise', 'deredden', 'downsample') or op.get('to') is not None:
            op['to'] = free
        if 'to2' in op:
            op['to2'] = free + 1
        kd = {'fold': 'arr', 'search': 'ts', 'cand': 'cand', 'copy': mine.get(op['s'])}.get(op['op'], 'ts')
        if 'to' in op:
            mine[free] = kd
        if 'to2' in op:
            mine[free + 1] = 'pg'
        free += 2
        out.append(op)
    return out


def vary(r, opl):
    """The same calls with other arguments (now and then)."""
    out = copy.deepcopy(opl)
    for op in out:
        if r.random() < 0.5:
            for k, vs in (('q', [0.003, 0.02, 0.1, 0.3]), ('f', [1.5, 2.0, 3.7]), ('bins', None), ('qp', [0.01, 0.05, 0.2]),
                          ('smin', [1.0, 3.0, 6.0]), ('p', None), ('i', [0, 1]), ('x', [2.0, 3.0001, 1.5]), ('fb', [8, 16, 5]),
                          ('subints', [None, 1, 3]), ('seed', [1, 2, 3])):
                if k in op and vs and r.random() < 0.6:
                    op[k] = r.choice(vs)
            if op['op'] == 'fold' and r.random() < 0.5:
                op['bins'] = r.choice([4, 8, 16, 32])
    return out


def plan(ctx, r, tier, unit):
    objs, kinds = [], {}
    for k in range(r.choice([1, 1, 2, 3])):
        o = r.choice([lambda r: O.gen_ts(r, big=True)] * 4 + [O.gen_pg, O.gen_cand, lambda r: O.gen_ts(r)])(r) if k else O.gen_ts(r, big=True)
        ops.tidy(o)
        if o['k'] == 'ts' and o.get('n', 0) > 1500:
            o['n'] = 1500
        objs.append(o)
        kinds[k] = {'ts': 'ts', 'pg': 'pg', 'pgs': 'pg', 'cand': 'cand'}[o['k']]
    files = [p09.gen_version(r, f, n=r.choice([300, 1000])) for f in r.choice([['presto', 'sigproc'], ['presto', 'presto'], ['sigproc', 'sigproc']])]
    for v in files:
        if v.get('extra') == 'user':
            v['extra'] = None
    n = r.choice([2, 2, 2, 3, 4])
    th = []
    for t in range(n):
        if th and r.random() < 0.6:
            th.append(vary(r, r.choice(th)))
        else:
            th.append(gen_ops(r, kinds, r.choice([1, 1, 2, 3]), 10))
    base = {'objs': objs, 'files': files, 'threads': th, 'opcodes': r.random() < 0.35}
    for j in range(PER_UNIT[tier]):
        s = dict(base, first=r.randrange(n), seed=r.getrandbits(32))
        x = r.random()
        if x < 0.45:
            s['policy'] = {'kind': 'at', 'at': [[r.random(), r.randrange(n)] for _ in range(r.choice([1, 1, 2, 3, 5]))]}
        else:
            s['policy'] = {'kind': 'rand', 'k': r.choice([2, 5, 20, 100, 1000])}
        if r.random() < 0.3:
            s['inject'] = [r.randrange(n), r.random(), r.choice(sorted(EXC))]
        yield s


def materialise(d, files):
    out = {'dir': d}
    for i, v in enumerate(files):
        for ext, b in p09.contents(v).items():
            p = os.path.join(d, 'f%d%s' % (i, ext))
            with open(p, 'wb') as f:
                f.write(b)
            if ext != '.dat':
                out[i] = p
    return out


def shared(spec):
    return {i: O.build(o) for i, o in enumerate(spec['objs'])}


def calls(spec, st, opl, res, keep, tr=None):
    for op in opl:
        if tr:
            tr.active = True
        try:
            try:
                out = ('ok', st._apply(op))
            finally:
                if tr:
                    tr.active = False
        except ops.NA:
            out = ('na',)
        except threads.Deadlock as e:
            out = ('deadlock', str(e))
        except BaseException as e:
            out = ('exc', type(e).__name__, str(e) == 'injected')
        if out[0] == 'ok':
            keep.append((len(res), out[1]))
            out = ('ok', O.canon(out[1]))
        res.append(out)
        if out[0] == 'deadlock':
            return


def prepare():
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def solo(spec, t, d):
    """The calls of one thread, alone (in a fresh process)."""
    prepare()
    objs = shared(spec)
    before = {k: O.canon(x) for k, x in objs.items()}
    res, keep = [], []
    calls(spec, Store(objs, materialise(d, spec['files']), 'r'), spec['threads'][t], res, keep)
    after = {k: O.canon(x) for k, x in objs.items()}
    return res, [(k, O.differ(before[k], after[k])) for k in before if before[k] != after[k]]


def simulate(spec, d, total=None, plain=None):
    """The threads under the scheduler (in a fresh process)."""
    prepare()
    objs = shared(spec)
    files = materialise(d, spec['files'])
    before = {k: O.canon(x) for k, x in objs.items()}
    n = len(spec['threads'])
    res, keep, trs = [[] for _ in range(n)], [[] for _ in range(n)], [threads.Tracer() for _ in range(n)]
    inj = spec.get('inject')
    if inj and plain:
        trs[inj[0] % n].arm(1 + int(inj[1] * plain[inj[0] % n]), EXC[inj[2]])

    def body(i):
        return lambda: calls(spec, Store(objs, files, str(i)), spec['threads'][i], res[i], keep[i], trs[i])
    pol = spec.get('policy') or {'kind': 'list', 'list': []}
    mode, prob, sw = 0, 0.0, []
    if pol['kind'] == 'at' and total:
        sw = sorted([1 + int(f * total), w] for f, w in pol['at'])
    elif pol['kind'] == 'list':
        sw = pol['list']
    elif pol['kind'] == 'rand' and total:
        mode, prob = 1, min(0.5, pol['k'] / total)
    threads.instrument(spec['opcodes'])
    rep = threads.run([body(i) for i in range(n)], trs, spec.get('first', 0), mode, spec.get('seed', 1), prob, sw)
    changed = []
    for i in range(n):
        for j, o in keep[i]:
            w = O.differ(res[i][j][1], O.canon(o))
            if w:
                changed.append((i, j, w))
    after = {k: O.canon(x) for k, x in objs.items()}
    later = []
    for i in range(n):
        a, b = [], []
        calls(spec, Store(objs, files, 'l%d' % i), spec['threads'][i], a, b)
        later.append(a)
    return {'res': res, 'report': rep, 'changed': changed, 'hit': [t.hit for t in trs], 'places': [t.n for t in trs],
            'shared': [(k, O.differ(before[k], after[k])) for k in before if before[k] != after[k]], 'later': later}


def run_child(ctx, fn):
    d = ctx.bench.path('p13')
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    got = mem.child(lambda: fn(d))
    if got[0] == 'timeout':
        raise Skip('takes too long')
    if got[0] == 'err':
        raise core.HarnessError(got[1])
    return got


def name(spec, i, j):
    op = spec['threads'][i][j]
    return 'call %d of thread %d, %s(%s)' % (j + 1, i, op['op'], ', '.join('%s=%s' % x for x in op.items() if x[0] != 'op'))


def execute(ctx, spec):
    key = {k: spec[k] for k in ('objs', 'files', 'threads')}
    ref = []
    for t in range(len(spec['threads'])):
        got = ctx.cached('p13solo', [key, t], lambda: run_child(ctx, lambda d: solo(spec, t, d)))
        if got[0] == 'signal':
            raise Skip('a call kills the process')
        r, ch = got[1]
        if ch:
            return [Violation('calls that are not in place modify shared object %s: %s (calls of thread %d alone: %s)' % (
                ch[0][0], ch[0][1], t, [name(spec, t, j) for j in range(len(r))]), 'P13:shared')]
        ref.append(r)
    base = dict(spec, policy=None, inject=None, first=0)
    got = ctx.cached('p13base', [key, spec['opcodes']], lambda: run_child(ctx, lambda d: simulate(base, d)))
    if got[0] == 'signal':
        return [Violation('the threads, one after the other, kill the process (signal %s)' % got[1], 'P13:crash')]
    total, plain = got[1]['report']['steps'], got[1]['places']
    got = run_child(ctx, lambda d: simulate(spec, d, total, plain))
    ctx.stats['executions'] += 1
    if got[0] == 'signal':
        return [Violation('the process dies (signal %s) under this schedule' % got[1], 'P13:crash')]
    o = got[1]
    rep = o['report']
    ctx.last = rep['switches']
    ctx.stats['steps'] += rep['steps']
    ctx.stats['thread switches'] += len(rep['switches'])
    ctx.stats['steps in native code'] += sum(rep['native'])
    ctx.fault_counts['preemption'] += len(rep['switches'])
    if rep['switches']:
        ctx.inter.add('%x' % rep['hash'])
        ctx.states.add('%x' % rep['hash'])
    hit = [h for h in o['hit'] if h]
    if hit:
        ctx.fault_counts['call interrupted by an exception'] += 1
    ctx.sample({'threads': [[name(spec, i, j) for j in range(len(t))] for i, t in enumerate(spec['threads'])],
                'switches': rep['switches'][:8], 'interrupted at': hit})
    ctx.digests['last'] = sha(repr((o['res'], rep, o['later'], o['hit'])).replace(ctx.bench.root, ''))
    why = ' (%d switches%s)' % (len(rep['switches']), ', a call of thread %d interrupted at %s' % (
        [i for i, h in enumerate(o['hit']) if h][0], hit[0]) if hit else '')
    for k, w in o['shared']:
        return [Violation('shared object %s is modified%s: %s' % (k, why, w), 'P13:shared')]
    for i, rs in enumerate(o['res']):
        broken = False
        for j, r in enumerate(rs):
            if r[0] == 'deadlock':
                return [Violation('%s never returns%s: it %s' % (name(spec, i, j), why, r[1]), 'P13:deadlock')]
            if r[0] == 'exc' and r[2] or (o['hit'][i] and r[0] == 'exc' and r != ref[i][j]):
                broken = True
                continue
            if broken and (r[0] != 'ok' or ref[i][j][0] != 'ok'):
                continue
            w = differ(ref[i][j], r)
            if w:
                return [Violation('%s %s%s' % (name(spec, i, j), w, why), 'P13:result')]
    for i, j, w in o['changed']:
        return [Violation('the result of %s changes after it was returned%s: %s' % (name(spec, i, j), why, w), 'P13:changes')]
    for i, rs in enumerate(o['later']):
        for j, r in enumerate(rs):
            if r[0] == 'deadlock':
                return [Violation('%s, made again afterwards, never returns%s' % (name(spec, i, j), why), 'P13:deadlock')]
            w = differ(ref[i][j], r)
            if w:
                return [Violation('%s, made again afterwards, %s%s' % (name(spec, i, j), w, why), 'P13:later')]
    return []


def differ(want, got):
    if want[0] != got[0]:
        return '%s, alone it %s' % (said(got), said(want))
    if want[0] == 'ok':
        w = O.differ(want[1], got[1])
        return w and 'returns another result than alone: ' + w
    if want[0] == 'exc' and want[1] != got[1]:
        return '%s, alone it %s' % (said(got), said(want))
    return None


def said(r):
    return {'ok': 'succeeds', 'na': 'does not apply'}.get(r[0]) or 'raises %s' % r[1]


def freeze(ctx, spec):
    s = copy.deepcopy(spec)
    if getattr(ctx, 'last', None) is not None and (spec.get('policy') or {}).get('kind') in ('at', 'rand'):
        s['policy'] = {'kind': 'list', 'list': [[a, c] for a, b, c in ctx.last]}
    return s


def shrinks(spec):
    th = spec['threads']
    pol = spec.get('policy') or {}
    if pol.get('kind') == 'list':
        n = len(pol['list'])
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                yield dict(spec, policy={'kind': 'list', 'list': pol['list'][:i] + pol['list'][i + k:]})
            k //= 2
    if spec.get('inject'):
        yield dict(spec, inject=None)
    for i, t in enumerate(th):
        for j in range(len(t)):
            if len(t) > 1:
                s = copy.deepcopy(spec)
                del s['threads'][i][j]
                yield s
    if spec['opcodes']:
        yield dict(spec, opcodes=False)
