import copy
import os
import pickle

from .. import core, faults as F, model, objects as O, ops as OP
from ..engine import Skip, Violation
from ..seams import sim
from ..util import sha

UNITS = {'quick': 240, 'thorough': 6000}
PER_UNIT = {'quick': 4, 'thorough': 10}
LEVEL = 'exploration'
RULE = ('a unit is a workflow: a random history of library operations cut into processes that hand their objects to each '
        'other through saved files; each execution runs it under short, failing and interrupted reads and writes and '
        'killed processes (which are started again), two processes at a time; every result is compared with that of '
        'the same history run in one process without saving anything; non-trivial = distinct interleavings')
REAL = ('save_json, load_json, to_dict/from_dict of every class, every operation applied to the objects, compiled '
        'kernels, pickle, Python buffered and text I/O, file system')
STUB = ('raw file operations (simulator decides outcome, then performed for real), allocation inside kernels, the library '
        'version string')
ASSUME = ['saving and loading, in the reference run, is replaced by an independent copy of the object, made by the harness']

STAGES = {'quick': 4, 'thorough': 7}


def plan(ctx, r, tier, unit):
    # stages of one or two concurrent processes; each loads files of earlier stages
    stages, files, nf = [], {}, 0
    reuse = r.random() < 0.25
    for st in range(r.randint(2, STAGES[tier])):
        procs = []
        old = dict(files)
        for _ in range(1 if st == 0 else r.choice([1, 1, 2])):
            kinds, ops = {}, []
            for f in sorted(old):
                if r.random() < 0.7:
                    to = r.randrange(6)
                    ops.append({'op': 'load', 'f': f, 'to': to})
                    kinds[to] = old[f]
                    if r.random() < 0.2:
                        ops.append({'op': 'load', 'f': f, 'to': (to + 1) % 6})
                        kinds[(to + 1) % 6] = old[f]
            for _ in range(r.randint(2, 9)):
                x = r.random()
                if kinds and x < 0.25:
                    s = r.choice(sorted(kinds))
                    mine = [o['f'] for o in ops if o['op'] == 'save']
                    if reuse and mine and r.random() < 0.5:
                        f = r.choice(mine)
                    else:
                        f = 'f%d' % nf
                        nf += 1
                    ops.append({'op': 'save', 's': s, 'f': f, 'kw': r.choice([{}, {}, {}, {'indent': None}, {'sort_keys': True},
                                                                            {'ensure_ascii': False}])})
                    files[f] = kinds[s]
                    if r.random() < 0.3:
                        ops.append({'op': 'load', 'f': f, 'to': s})
                elif kinds and x < 0.33:
                    s, to = r.choice(sorted(kinds)), r.randrange(6)
                    ops.append({'op': r.choice(['json', 'pickle', 'json']), 's': s, 'to': to})
                    kinds[to] = kinds[s]
                else:
                    ops.append(OP.gen_op(r, kinds))
            if kinds:
                f = 'f%d' % nf
                nf += 1
                s = r.choice(sorted(kinds))
                ops.append({'op': 'save', 's': s, 'f': f, 'kw': {}})
                files[f] = kinds[s]
            procs.append(ops)
        stages.append(procs)
    for k in range(PER_UNIT[tier]):
        fl = []
        x = r.random()
        nth = r.choice([1, 1, 2, 3, r.randint(1, 12)])
        if k == 0:
            pass
        elif x < 0.25:
            fl.append({'at': {'op': r.choice(['read', 'write']), 'rel': 'out/*', 'every': True},
                       'act': {'t': 'short', 'k': r.choice([64, 700, 5000])}})
        elif x < 0.5:
            op = r.choice(['write', 'write', 'close', 'open', 'read'])
            fl.append({'at': {'op': op, 'rel': 'out/*', 'nth': nth},
                       'act': {'t': 'errno', 'e': 5 if op == 'read' else r.choice(F.WRITE), 'k': r.choice([0, 1, 512])}})
        elif x < 0.6:
            fl.append({'at': {'op': 'kernel', 'nth': nth}, 'act': {'t': 'mem'}})
        elif x < 0.9:
            for _ in range(r.choice([1, 2])):
                op = r.choice(['write', 'write', 'read', 'close', 'open', 'kernel'])
                at = {'op': op, 'nth': r.choice([1, nth])}
                if op != 'kernel':
                    at['rel'] = 'out/*'
                act = {'t': 'torn', 'k': r.choice([0, 5, 512]), 'who': 'self'} if op == 'write' and r.random() < 0.6 else \
                    {'t': 'kill', 'who': 'self'}
                fl.append({'at': at, 'act': act})
        # faults apply to one stage each
        yield {'stages': stages, 'faults': [[r.randrange(len(stages)), f] for f in fl], 'seed': r.getrandbits(32),
               'policy': core.random_policy(r), 'buf': r.choice([8192, 8192, 700, 65536])}


# ------------------------------------------------------------ reference ----

class RefStore(OP.Store):
    def __init__(self, files):
        super().__init__()
        self.files = files

    def do_save(self, op):
        self.files[op['f']] = OP.clone(self.get(op['s']))

    def do_load(self, op):
        if op['f'] not in self.files:
            raise OP.NA()
        self.s[op['to']] = OP.clone(self.files[op['f']])
        return self.s[op['to']]

    def do_json(self, op):
        self.s[op['to']] = OP.clone(self.get(op['s']))
        return self.s[op['to']]

    def do_pickle(self, op):
        self.s[op['to']] = OP.clone(self.get(op['s']), 'P')
        return self.s[op['to']]


def reference(stages):
    files, out = {}, []
    for procs in stages:
        row = []
        new = {}
        for ops in procs:
            mine = dict(files)
            st = RefStore(mine)
            res = [st.apply(op) for op in ops]
            row.append((res, {k: O.canon(v) for k, v in st.s.items()}))
            new.update({k: v for k, v in mine.items() if k not in files or v is not files[k]})
        files.update(new)
        out.append(row)
    return out


# ------------------------------------------------------------ real ----

class RealStore(OP.Store):
    def __init__(self, root):
        super().__init__()
        self.root = root
        self.trouble = []
        self.vers = {}      # slot -> version it was first saved with

    def path(self, f):
        return os.path.join(self.root, 'out', f + '.json')

    def do_save(self, op):
        import riptide
        o = self.get(op['s'])
        before = OP.finger(o)
        for k in range(8):
            try:
                riptide.save_json(self.path(op['f']), o, **op['kw'])
                ok = True
            except (OSError, MemoryError):
                ok = False
            finally:
                if OP.finger(o) != before:
                    self.trouble.append('saving a %s%s alters it' % (OP.kind(o), '' if ok else ' (the save fails)'))
            if ok:
                return
        raise core.HarnessError('save keeps failing')

    def do_load(self, op):
        import riptide
        if not os.path.exists(self.path(op['f'])):
            raise OP.NA()
        for k in range(8):
            try:
                o = riptide.load_json(self.path(op['f']))
                break
            except (OSError, MemoryError):
                continue
        self.s[op['to']] = o
        return o

    def do_json(self, op):
        from riptide.serialization import from_json, to_json
        o = self.get(op['s'])
        before = OP.finger(o)
        t = to_json(o)
        if OP.finger(o) != before:
            self.trouble.append('encoding a %s alters it' % OP.kind(o))
        self.s[op['to']] = from_json(t)
        return self.s[op['to']]

    def do_pickle(self, op):
        self.s[op['to']] = pickle.loads(pickle.dumps(self.get(op['s'])))
        return self.s[op['to']]

    def apply(self, op):
        for k in range(8):
            try:
                return super().apply(op)
            except MemoryError:      # the injected allocation failure: do it again
                continue
        raise core.HarnessError('keeps failing')


def versions(o):
    """[(path, version)] of the library objects of a saved thing, not those they contain."""
    k = OP.kind(o)
    if k == 'list':
        return [x for i, v in enumerate(o) for x in pre(i, versions(v))]
    if k == 'dict' and type(o) is dict:
        return [x for i in sorted(o) for x in pre(i, versions(o[i]))]
    if k in ('ts', 'pg', 'cand'):
        return [('', getattr(o, 'version', None))]
    return []


def pre(i, vs):
    return [('/%s%s' % (i, p), v) for p, v in vs]


def run_process(root, ops, stage):
    import riptide
    riptide.__version__ = 'v%d.0' % stage
    st = RealStore(root)
    res, vers = [], []
    clean = {}            # slot -> versions its object came with
    for op in ops:
        sim('user', 'op')
        if op['op'] == 'save' and op['s'] in st.s:
            vers.append(['save', op['f'], clean.get(op['s']), versions(st.s[op['s']])])
        a = st.apply(op)
        if op['op'] == 'load' and a[0] == 'ok':
            clean[op['to']] = versions(st.s[op['to']])
            vers.append(['load', op['f'], None, clean[op['to']]])
        elif op['op'] in ('pickle', 'copy', 'json') and a[0] == 'ok':
            clean.pop(op['to'], None)
        elif op['op'] == 'save':
            pass
        else:
            for k in [op.get('s'), op.get('to'), op.get('to2')] + list(op.get('ss', ())):
                clean.pop(k, None)
            if op['op'] in ('pack', 'unpack', 'mutate', 'setmeta', 'search', 'normalise', 'deredden', 'downsample'):
                clean.clear()
        res.append(a)
    return {'res': res, 'final': {k: O.canon(v) for k, v in st.s.items()}, 'trouble': st.trouble, 'vers': vers}


def probe():
    import riptide
    from riptide.serialization import to_json
    import numpy as np
    riptide.__version__ = 'probe.7'
    return 'probe.7' in to_json(riptide.TimeSeries(np.zeros(3, 'f4'), 1.0))


def execute(ctx, spec):
    b = ctx.bench
    if b.scn != 'p12':
        b.load({'trials': [], 'fmt': '', 'config': {}})
        b.scn = 'p12'
    b.reset()

    def fn():
        st, v = model.isolated(reference, spec['stages'])
        if st != 'ok':
            if 'HarnessError' in v or 'died' in v:
                raise Skip('reference: ' + v[:80])
            raise core.HarnessError(v)
        return v
    ref = ctx.cached('p12', spec['stages'], fn)
    if not hasattr(ctx, 'p12probe'):
        ctx.p12probe = model.isolated(probe) == ('ok', True)
    root = b.root
    first = {}     # file -> versions it must be loaded with
    dig = []
    for si, procs in enumerate(spec['stages']):
        todo = list(range(len(procs)))
        fl = [f for s, f in spec['faults'] if s == si]
        for attempt in range(5):
            mains = [{'name': 'p%d' % k, 'fn': (lambda k=k: run_process(root, procs[k], si))} for k in todo]
            for m in mains:
                m['fn'].__name__ = m['name']
            res = ctx.run(mains, policy=spec['policy'], faults=fl, seed=spec['seed'] + 7 * attempt + si, bufsize=spec['buf'])
            dig.append(res.digest())
            if res.status != 'done':
                raise Skip(res.status)
            again = []
            for k in todo:
                m = res.mains.get('p%d' % k, {})
                if m.get('status') == 'killed':
                    again.append(k)
                    continue
                if m.get('signal'):
                    return [Violation('a process that uses loaded objects dies from signal %s' % m['signal'], 'P12:crash')]
                if m.get('status') != 'ok':
                    raise core.HarnessError(str(m)[:3000])
                v = check(ctx, spec, si, k, procs[k], ref[si][k], m['ret'], first, res)
                if v:
                    return v
            ctx.stats['processes killed and started again'] += len(again)
            todo, fl = again, []
            if not todo:
                break
        else:
            raise Skip('too many attempts')
    ctx.digests['last'] = sha(repr(dig))
    ctx.sample({'stages': [[[o['op'] for o in p] for p in s] for s in spec['stages']], 'faults': [F.label(f) for _, f in spec['faults']]})
    return []


def check(ctx, spec, si, k, ops, ref, got, first, res):
    if got['trouble']:
        return [Violation(got['trouble'][0], 'P12:alters')]
    name = 'process %d of stage %d' % (k + 1, si + 1)
    for j, (op, a, g) in enumerate(zip(ops, ref[0], got['res'])):
        ctx.stats['operations: ' + a[0]] += 1
        if tuple(a) != tuple(g):
            hist = ' '.join(o['op'] for o in ops[:j + 1])
            if a[0] == g[0] == 'ok':
                d = O.differ(a[1], g[1])
            else:
                d = '%s instead of %s' % (brief(g), brief(a))
            return [Violation('%s (%s): operation %s gives another result than on the object that was saved: %s' % (
                name, hist[-200:], describe(op), d), 'P12:differs')]
    for s in ref[1]:
        d = O.differ(ref[1][s], got['final'].get(s))
        if d:
            return [Violation('%s: what slot %s holds at the end differs: %s' % (name, s, d), 'P12:differs')]
    for what, f, clean, vs in got['vers']:
        if what == 'load' and f in first:
            if norm(first[f]) != norm(vs):
                return [Violation('%s: objects of a file first saved by version %s are loaded with version %s' % (
                    name, first[f], vs), 'P12:version')]
        elif what == 'save':
            now = 'v%d.0' % si
            # never saved before: the version that saves it (when the library lets us set it)
            first[f] = [(p, v if v else (now if ctx.p12probe else None)) for p, v in vs]
            if clean is not None:
                first[f] = clean
        else:
            first[f] = vs
    return None


def norm(vs):
    return [v for v in vs if v[1] is not None]


def brief(a):
    return a[0] if a[0] == 'na' else '%s %.120r' % (a[0], a[1])


def describe(op):
    return ' '.join('%s=%s' % (k, v if not isinstance(v, dict) else v.get('k')) for k, v in op.items())


def shrinks(spec):
    for i in range(len(spec['faults'])):
        s = copy.deepcopy(spec)
        del s['faults'][i]
        yield s
    for i in reversed(range(len(spec['stages']))):
        if len(spec['stages']) > 1:
            s = copy.deepcopy(spec)
            del s['stages'][i]
            s['faults'] = [[a - (a > i), f] for a, f in s['faults'] if a != i]
            yield s
    for i, st in enumerate(spec['stages']):
        for j in range(len(st)):
            if len(st) > 1:
                s = copy.deepcopy(spec)
                del s['stages'][i][j]
                yield s
    for i, st in enumerate(spec['stages']):
        for j, p in enumerate(st):
            for k in reversed(range(len(p))):
                s = copy.deepcopy(spec)
                del s['stages'][i][j][k]
                yield s
    if spec['policy'] != {'kind': 'seq'}:
        yield dict(copy.deepcopy(spec), policy={'kind': 'seq'})
