import copy
import os
import random

from .. import core, faults as F, objects as O
from ..engine import Skip, Violation
from ..seams import R_open, STATE
from ..util import sha

UNITS = {'quick': 240, 'thorough': 9000}
PER_UNIT = {'quick': 6, 'thorough': 12}
STATES = {'quick': 120, 'thorough': 400}
LEVEL = 'exploration'
RULE = ('a unit is a random object; each execution saves it under random write faults, kills and short writes, over '
        'nothing or over a previous file, then loads the state left on disk and crash states derived from it (cut at '
        'random bytes, random subsets of 512 or 4096-byte blocks lost, both); non-trivial = distinct crash states '
        '(object, cut position, lost blocks)')
MEASURE = 'hash of (file content, position of the cut, blocks lost)'
REAL = 'save_json, load_json, to_dict/from_dict of every class, Python buffered and text I/O, file system'
STUB = 'raw file operations (simulator decides outcome, then performed for real); loss of unsynced data re-created on the file'
ASSUME = ['a crash loses any suffix of the file and any set of its blocks (which then read as zeros); blocks never '
          'hold data of other files']

BAD = ['set', 'bytes', 'complex', 'object', 'lambda', 'cycle', 'objarray', 'deep']


def plan(ctx, r, tier, unit):
    obj = O.gen(r)
    for k in range(PER_UNIT[tier]):
        prev = None
        x = r.random()
        if x < 0.3:
            prev = O.gen(r)
        elif x < 0.45:
            prev = obj
        if k == 3 and prev is None:
            prev = O.gen(r)
        fl = []
        x = r.random()
        nth = r.choice([1, 1, 2, 3, r.randint(1, 20)])
        if k == 3:
            yield {'obj': obj, 'bad': [r.choice(BAD), r.getrandbits(16)], 'prev': prev, 'faults': [], 'seed': r.getrandbits(32),
                   'buf': 8192, 'kw': {}, 'crash': {'seed': r.getrandbits(32), 'n': 0}}
            continue
        if k and x < 0.25:
            fl.append({'at': {'op': 'write', 'rel': 'out/*', 'nth': nth},
                       'act': {'t': 'torn', 'k': r.choice([0, 1, 5, 100, 511, 512, 4000]), 'who': 'main'}})
        elif k and x < 0.4:
            fl.append({'at': {'op': r.choice(['write', 'close', 'open', 'rename', 'replace', 'fsync']), 'rel': 'out/*',
                              'nth': r.choice([1, nth])}, 'act': {'t': 'kill', 'who': 'main'}})
        elif k and x < 0.7:
            e = r.choice(F.WRITE)
            fl.append({'at': {'op': r.choice(['write', 'write', 'write', 'close', 'open']), 'rel': 'out/*', 'nth': nth},
                       'act': {'t': 'errno', 'e': e, 'k': r.choice([0, 0, 1, 100, 512]), 'sticky': r.random() < 0.3}})
        elif x < 0.8:
            fl.append({'at': {'op': 'write', 'rel': 'out/*', 'every': True}, 'act': {'t': 'short', 'k': r.choice([99, 512])}})
        yield {'obj': obj, 'bad': None, 'prev': prev, 'faults': fl, 'seed': r.getrandbits(32),
               'buf': r.choice([8192, 8192, 512, 4096, 333]), 'kw': r.choice([{}, {}, {}, {'indent': None}, {'sort_keys': True}]),
               'crash': {'seed': r.getrandbits(32), 'n': STATES[tier]}}


def spoil(obj, kind, seed):
    """Put a leaf that cannot be represented somewhere inside."""
    import numpy as np
    r = random.Random(seed)
    leaf = {'set': {1, 2}, 'bytes': b'\x00\xff', 'complex': 1j, 'object': object(), 'lambda': len,
            'objarray': np.array([None, {1}], dtype=object)}.get(kind)
    if kind == 'cycle':
        leaf = []
        leaf.append(leaf)
    if kind == 'deep':
        leaf = {1}
        for _ in range(r.randint(3, 30)):
            leaf = [leaf]
    if isinstance(obj, list) and r.random() < 0.7:
        return obj + [leaf]
    if isinstance(obj, dict) and r.random() < 0.7:
        return dict(obj, zzz=leaf)
    if hasattr(obj, 'params') and r.random() < 0.7:
        obj.params['weird'] = leaf
        return obj
    return {'first': obj, 'zlast': leaf} if r.random() < 0.5 else [obj, obj, leaf]


def crash_states(data, seed, n):
    """[(cut, block size, lost blocks)]"""
    r = random.Random(seed)
    size = len(data)
    out = []
    for c in (0, 1, size // 2, size - 1, size - 2, size - 3):
        if 0 <= c < size:
            out.append([c, 0, []])
    while len(out) < n and size:
        x = r.random()
        if x < 0.45:
            out.append([r.randrange(size), 0, []])
            continue
        bs = r.choice([512, 512, 4096])
        nb = (size + bs - 1) // bs
        cut = size if x < 0.85 else r.randrange(size)
        k = r.choice([1, 1, 1, 2, nb, max(1, nb // 2)])
        if k == nb and r.random() < 0.5:
            lost = list(range(r.randrange(nb), nb))
        else:
            lost = sorted(r.sample(range(nb), min(k, nb)))
        out.append([cut, bs, lost])
    return out[:n] if n < 6 else out


def apply(data, st):
    cut, bs, lost = st
    b = bytearray(data[:cut])
    for i in lost:
        lo, hi = i * bs, min((i + 1) * bs, len(b))
        if lo < hi:
            b[lo:hi] = bytes(hi - lo)
    return bytes(b)


def execute(ctx, spec):
    b = ctx.bench
    if b.scn != 'p07':
        b.load({'trials': [], 'fmt': '', 'config': {}})
        b.scn = 'p07'
    b.reset()
    root = b.root
    path = os.path.join(root, 'out', 'obj.json')

    def start():
        # the previous file, written without faults
        from riptide import save_json
        if spec['prev'] is not None:
            save_json(path, O.build(spec['prev']))
        return True
    prev = None
    if spec['prev'] is not None:
        res0 = ctx.run([{'name': 'main', 'fn': start}], seed=1)
        if res0.mains['main'].get('status') != 'ok':
            return [Violation('saving fails without any fault: %s' % res0.mains['main'].get('tb', '')[-400:], 'P07:save')]
        with R_open(path, 'rb') as f:
            prev = f.read()

    def saver():
        from riptide import save_json
        obj = O.build(spec['obj'])
        if spec['bad']:
            obj = spoil(obj, *spec['bad'])
        try:
            save_json(path, obj, **spec['kw'])
            return 'ok'
        except (OSError, MemoryError):
            raise
        except Exception as e:
            return 'refused %s: %s' % (type(e).__name__, str(e)[:100])
    res = ctx.run([{'name': 'main', 'fn': saver}], faults=spec['faults'], seed=spec['seed'], bufsize=spec['buf'])
    m = res.mains.get('main', {})
    ctx.digests['last'] = sha(res.digest())
    if res.status != 'done':
        raise Skip('save: ' + res.status)
    if os.path.exists(path):
        with R_open(path, 'rb') as f:
            data = f.read()
    else:
        data = None
    how = {'ok': m.get('ret', 'ok')}.get(m.get('status'), m.get('status'))
    ctx.stats['saves: ' + str(how).split(':')[0]] += 1
    if spec['bad']:
        if how != 'ok' and data != prev:
            return [Violation('saving an object that cannot be represented (%s; %s) over an existing file %s' % (
                spec['bad'][0], how, 'removes it' if data is None else 'changes it: %d bytes instead of %d' % (
                    len(data), len(prev))), 'P07:clobbered')]
        return []
    if str(how).startswith('refused'):
        return [Violation('saving a valid object fails: %s' % how, 'P07:save')]
    if how == 'error' and not res.fired:
        return [Violation('saving a valid object fails: %s' % m.get('tb', '')[-400:], 'P07:save')]
    if data is None:
        return [Violation('the save returned normally but there is no file', 'P07:missing')] if how == 'ok' else []
    cs = spec['crash']
    states = cs.get('list')
    if states is None:
        states = crash_states(data, cs['seed'], cs['n'])
    states = [[len(data), 0, []]] + states

    def loader():
        from riptide import load_json
        want = O.canon(O.build(spec['obj']))
        before = O.canon(O.build(spec['prev'])) if spec['prev'] is not None else None
        out = []
        p = os.path.join(root, 'tmp', 'state.json')
        for st in states:
            STATE.busy = True      # laying out the crash state is the simulator's work
            with R_open(p, 'wb') as f:
                f.write(apply(data, st))
            STATE.busy = False
            try:
                got = load_json(p)
            except BaseException as e:
                out.append('E:' + type(e).__name__)
                continue
            c = O.canon(got)
            out.append('same' if c == want else 'prev' if before is not None and c == before else
                       'diff ' + str(O.differ(c, want)))
        return out
    res2 = ctx.run([{'name': 'main', 'fn': loader}], seed=spec['seed'], max_steps=400000)
    m2 = res2.mains.get('main', {})
    if m2.get('signal'):
        return [Violation('loading a partially written file kills the process (signal %s)' % m2['signal'], 'P07:crash')]
    if m2.get('status') != 'ok':
        raise core.HarnessError(str(m2))
    if len(ctx.states) < 60000:
        h = sha(data)[:12]
        for st in states:
            ctx.states.add(sha('%s %s' % (h, st))[:12])
    ctx.stats['crash states loaded'] += len(states)
    ctx.sample({'object': spec['obj']['k'], 'bytes': len(data), 'save': how, 'faults': [F.label(f) for f in spec['faults']],
                'states': len(states), 'example': states[-1]})
    for st, o in zip(states, m2['ret']):
        kind = o.split(':')[0].split(' ')[0]
        ctx.stats['loads: ' + kind] += 1
        if kind == 'diff' or (kind == 'prev' and how == 'ok') or (kind == 'E' and how == 'ok' and st is states[0]):
            ctx.bad_state = st
            if st is states[0] and how == 'ok':
                return [Violation('the save returned normally%s but loading gives %s' % (
                    ' (%s)' % ', '.join('%s %s' % (f['op'], f['t']) for f in res.fired) if res.fired else '', o),
                    'P07:incomplete')]
            if st is states[0]:
                return [Violation('a save that was interrupted (%s) leaves a file of %d bytes that is loaded as valid '
                                  'data: %s' % (', '.join('%s %s' % (f['op'], f['t']) for f in res.fired), len(data), o),
                                  'P07:loaded')]
            if kind == 'prev':
                continue
            return [Violation('a file of %d bytes cut at byte %d%s is loaded as valid data: %s' % (
                len(data), st[0], ' with %d-byte blocks %s lost' % (st[1], st[2]) if st[2] else '', o), 'P07:loaded')]
    return []


def freeze(ctx, spec):
    s = copy.deepcopy(spec)
    if getattr(ctx, 'bad_state', None) is not None:
        s['crash'] = {'list': [ctx.bad_state]}
    return s


def shrinks(spec):
    for key in ('faults',):
        for i in range(len(spec[key])):
            s = copy.deepcopy(spec)
            del s[key][i]
            yield s
    if spec['prev'] is not None and not spec['bad']:
        yield dict(copy.deepcopy(spec), prev=None)
    for o in smaller(spec['obj']):
        s = copy.deepcopy(spec)
        s['obj'] = o
        if 'list' in s['crash']:
            s['crash'] = {'seed': 7, 'n': 200}
        yield s
    if 'list' in spec['crash'] and len(spec['crash']['list']) == 1:
        st = spec['crash']['list'][0]
        if len(st[2]) > 1:
            for i in range(len(st[2])):
                s = copy.deepcopy(spec)
                del s['crash']['list'][0][2][i]
                yield s


def smaller(o):
    if o['k'] in ('list', 'dict'):
        for i, v in enumerate(o['v']):
            yield v if o['k'] == 'list' else v[1]
        for i in range(len(o['v'])):
            s = copy.deepcopy(o)
            del s['v'][i]
            yield s
    for k in ('meta',):
        if o.get(k):
            for name in sorted(o[k]):
                s = copy.deepcopy(o)
                del s[k][name]
                yield s
    if o['k'] == 'ts' and o['n'] > 2:
        yield dict(copy.deepcopy(o), n=max(2, o['n'] // 4))
    if o['k'] == 'cand' and o['npk'] > 1:
        yield dict(copy.deepcopy(o), npk=1)
