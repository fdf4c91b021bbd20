"""Execution context shared by the property checks, generic shrinking, shard loop."""
import collections
import copy
import errno
import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, faults as F, model, scenario as S
from .bench import Bench
from .util import REPO, VERIF, derive, eprint, rng, sha


CFG = None          # what check.py told this interpreter


class Skip(Exception):
    """The execution decides nothing (ambiguous scenario, harness limit)."""


class Incomplete(Skip):
    """The fault-free run of a valid scenario does not complete."""


class Violation(dict):
    def __init__(self, msg, sig=None, **x):
        super().__init__(msg=msg, sig=sig or 'unclassified', **x)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.bench = Bench()
        self.stats = collections.Counter()
        self.fault_counts = collections.Counter()
        self.inter = set()
        self.states = set()
        self.samples = []
        self.sim_time = 0.0
        self.cache = {}
        self.digests = {}
        self.last_choices = None
        self.started = time.time()
        self.deadline = None

    def close(self):
        self.bench.close()

    # ---- scenarios
    def load(self, scn):
        k = S.dumps(scn)
        if self.bench.scn is None or S.dumps(self.bench.scn) != k:
            self.bench.load(scn)

    def cached(self, kind, scn, fn):
        key = (kind, sha(S.dumps(scn)))
        if key not in self.cache:
            if len(self.cache) > 40:
                self.cache.pop(next(iter(self.cache)))
            try:
                self.cache[key] = ('ok', fn())
            except (Skip, model.Ambiguous) as e:
                self.cache[key] = ('skip', e)
        st, v = self.cache[key]
        if st == 'skip':
            raise v if isinstance(v, Skip) else Skip(str(v))
        return v

    def oracle(self, scn):
        return self.cached('oracle', scn, lambda: model.Oracle(scn))

    def baseline(self, scn, seed=0):
        """Fault-free run with the default schedule: (Result, products, canonical digest)."""
        def fn():
            self.load(scn)
            self.bench.reset()
            res = self.run([self.bench.pipeline()], seed=seed)
            st = res.mains.get('main', {})
            if res.status != 'done' or st.get('status') != 'ok':
                raise Incomplete('fault-free run does not complete: %s %s %s %s' % (
                    res.status, st.get('status'), st.get('exc'), st.get('msg')))
            return res, self.bench.products()
        return self.cached('baseline', scn, fn)

    def run(self, mains, **kw):
        res = self.bench.run(mains, **kw)
        self.stats['executions'] += 1
        self.stats['steps'] += res.steps
        self.stats['branches'] += res.branches
        self.sim_time += res.sim_time
        for f in res.fired:
            self.fault_counts[_flabel(f)] += 1
        self.inter.add(res.interleaving())
        self.last_choices = list(res.choices)
        for name, m in res.mains.items():
            if m.get('status') == 'crashed':
                h = self.bench.path('std', name + '.harness')
                if os.path.exists(h):
                    with open(h) as f:
                        raise core.HarnessError(f.read())
        return res

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)


def _flabel(f):
    t = f['t']
    if t == 'errno':
        return '%s error %s' % (f['op'], errno.errorcode.get(f.get('e'), f.get('e')))
    return {'kill': 'process killed', 'torn': 'torn write then crash', 'short': 'short ' + f['op'],
            'mem': 'allocation failure', 'stall': 'stalled (clock runs on)', 'freeze': 'process stalled',
            'clock': 'clock jump'}.get(t, t)


# ------------------------------------------------------------ scenarios ----

def good_scenario(ctx, r, want_peaks=True, tries=40, need=None, **kw):
    """A scenario whose fault-free outcome is unambiguous (and has peaks)."""
    for _ in range(tries):
        scn = S.gen(r.getrandbits(48), **kw)
        try:
            o = ctx.oracle(scn)
        except Skip:
            ctx.stats['ambiguous scenarios dropped'] += 1
            continue
        if want_peaks and not o.peaks:
            continue
        if need and not need(scn, o):
            continue
        return scn
    raise Skip('no suitable scenario')


def shrink_scn(scn):
    """Simpler scenarios."""
    n = len(scn['trials'])
    if n > 1:
        for i in reversed(range(n)):
            s = copy.deepcopy(scn)
            del s['trials'][i]
            s['order'] = [j - (j > i) for j in s['order'] if j != i]
            if s.get('script'):
                continue
            yield s
    c = scn['config']
    if scn.get('script'):
        pk = scn['script']['peaks']
        for key in sorted(pk):
            if len(pk[key]) > 0:
                s = copy.deepcopy(scn)
                del s['script']['peaks'][key]
                yield s
        for key in sorted(pk):
            for j in range(len(pk[key])):
                s = copy.deepcopy(scn)
                del s['script']['peaks'][key][j]
                yield s
    elif len(c['ranges']) > 1:
        for k in (0, len(c['ranges']) - 1):
            s = copy.deepcopy(scn)
            del s['config']['ranges'][k]
            yield s
    if scn['order'] != sorted(scn['order']):
        s = copy.deepcopy(scn)
        s['order'].sort()
        yield s
    for path, v in (('processes', 1), ('processes', 2), ('plot_candidates', False)):
        if c[path] != v and (path != 'processes' or c[path] > v):
            s = copy.deepcopy(scn)
            s['config'][path] = v
            yield s
    for path in ('dm_min', 'snr_min', 'max_number', 'remove_harmonics'):
        if c['candidate_filters'][path] is not None:
            s = copy.deepcopy(scn)
            s['config']['candidate_filters'][path] = None
            yield s
    if scn['cli'] != {'relative': False, 'logfile': False, 'log_level': 'WARNING', 'timings': False}:
        s = copy.deepcopy(scn)
        s['cli'] = {'relative': False, 'logfile': False, 'log_level': 'WARNING', 'timings': False}
        yield s


def shrink_spec(spec):
    """Generic: drop faults, simplify schedules, simplify the scenario."""
    for key in ('faults', 'attempts'):
        if isinstance(spec.get(key), list):
            for i in range(len(spec[key])):
                s = copy.deepcopy(spec)
                del s[key][i]
                yield s
    for i, a in enumerate(spec.get('attempts', ()) if isinstance(spec.get('attempts'), list) else ()):
        for sub in ('policy',):
            if a.get(sub) and a[sub] != {'kind': 'seq'}:
                s = copy.deepcopy(spec)
                s['attempts'][i][sub] = {'kind': 'seq'}
                yield s
    pol = spec.get('policy')
    if pol and pol != {'kind': 'seq'}:
        s = copy.deepcopy(spec)
        s['policy'] = {'kind': 'seq'}
        yield s
        if pol.get('kind') == 'replay':
            ch = pol['choices']
            n = len(ch)
            while n > 0:
                n //= 2
                s = copy.deepcopy(spec)
                s['policy']['choices'] = ch[:n]
                yield s
            if len(ch) > 1:
                s = copy.deepcopy(spec)
                s['policy']['choices'] = ch[:len(ch) - 1]
                yield s
    if isinstance(spec.get('scn'), dict) and 'trials' in spec['scn']:
        for t in shrink_scn(spec['scn']):
            s = copy.deepcopy(spec)
            s['scn'] = t
            yield s


def load_prop(pid):
    return importlib.import_module('vsim.props.' + pid.lower())


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('status') == 'known' and d['property'] == pid:
                        out[d['sig']] = d
    return out


# ------------------------------------------------------------ shard loop ----

def execute(prop, ctx, spec):
    """List of Violation; [] when the execution decides nothing bad; None when skipped."""
    try:
        return prop.execute(ctx, spec)
    except (Skip, model.Ambiguous) as e:
        ctx.stats['skipped executions'] += 1
        if len(ctx.states) < 100000:
            ctx.stats['skip: ' + str(e)[:100]] += 1
        return None


def shard(pid, tier, seed, nshards, me, out, soft):
    prop = load_prop(pid)
    ctx = Ctx(pid, tier)
    t0 = time.time()
    ctx.deadline = t0 + soft
    units = prop.UNITS[tier]
    viol, known, errors, done = [], collections.Counter(), [], 0
    kf = known_findings(pid)
    todo = [u for u in range(units) if u % nshards == me]
    twin = (me + 1) % nshards
    slow = False
    try:
        for u in todo + [('twin', twin)]:
            if time.time() > ctx.deadline:
                break
            istwin = isinstance(u, tuple)
            uu = u[1] if istwin else u
            if uu >= units:
                continue
            r = rng(seed, pid, 'unit', uu)
            try:
                for k, spec in enumerate(prop.plan(ctx, r, tier, uu)):
                    t1 = time.time()
                    v = execute(prop, ctx, spec)
                    if v and time.time() - t1 > 20:
                        slow = True
                    if k == 0 and (istwin or uu < nshards):
                        d = ctx.digests.pop('last', None)
                        if d is not None:
                            ctx.digests[('twin:' if istwin else 'own:') + str(uu)] = d
                    if istwin:
                        break
                    ctx.stats['specs'] += 1
                    if v:
                        new = [x for x in v if x['sig'] not in kf]
                        for x in v:
                            if x['sig'] in kf:
                                known[x['sig']] += 1
                        if new:
                            s = prop.freeze(ctx, spec) if hasattr(prop, 'freeze') else freeze(ctx, spec)
                            viol.append({'spec': s, 'orig': spec, 'violation': new[0], 'unit': uu})
                            break
                    if time.time() > ctx.deadline:
                        break
                if not istwin:
                    done += 1
            except Skip as e:
                ctx.stats['skipped units'] += 1
                ctx.stats['skip: ' + str(e)[:100]] += 1
            except Exception:
                errors.append('unit %s: %s' % (u, traceback.format_exc()[-3000:]))
                if len(errors) > 3:
                    break
            if len(viol) >= 2 or viol and slow:
                break
    finally:
        ctx.close()
        ctx.digests.pop('last', None)
        with open(out + '.tmp', 'w') as f:
            json.dump({'shard': me, 'violations': viol, 'known': dict(known), 'errors': errors, 'units': done,
                       'stats': dict(ctx.stats), 'faults': dict(ctx.fault_counts), 'inter': sorted(ctx.inter),
                       'states': sorted(ctx.states), 'samples': ctx.samples, 'sim_time': ctx.sim_time,
                       'digests': ctx.digests, 'wall': time.time() - t0,
                       'hashseed': os.environ.get('PYTHONHASHSEED')}, f, default=str)
        os.replace(out + '.tmp', out)


def freeze(ctx, spec):
    """Replace the seeded policy by the schedule it produced."""
    s = copy.deepcopy(spec)
    if s.get('policy') and ctx.last_choices is not None and s['policy'].get('kind') != 'seq':
        s['policy'] = {'kind': 'replay', 'choices': ctx.last_choices}
    return s


def minimise(pid, path, out, budget):
    """Shrink the violating spec in `path`; write the result to `out`."""
    prop = load_prop(pid)
    with open(path) as f:
        rec = json.load(f)
    ctx = Ctx(pid, 'quick')
    t0 = time.time()
    kf = known_findings(pid)

    def fails(spec):
        try:
            v = execute(prop, ctx, spec)
        except Exception:
            return None
        v = [x for x in (v or []) if x['sig'] not in kf]
        return v[0] if v else None
    tried = 0
    try:
        best, bv = None, None
        for cand in (rec['spec'], rec['orig']):
            t1 = time.time()
            v = fails(cand)
            if v:
                best, bv = cand, v
                # an execution that only ends by the watchdog is too slow to shrink
                if time.time() - t1 > 20:
                    budget = 0
                break
        if best is not None:
            shr = getattr(prop, 'shrinks', shrink_spec)
            progress = True
            while progress and time.time() - t0 < budget:
                progress = False
                for s in shr(best):
                    if time.time() - t0 > budget:
                        break
                    tried += 1
                    v = fails(s)
                    if v:
                        best, bv, progress = s, v, True
                        break
        with open(out, 'w') as f:
            json.dump({'spec': best, 'violation': bv, 'tried': tried}, f)
    finally:
        ctx.close()


def products_of(pid, scn, out):
    """Products of the fault-free default run of a scenario, for another interpreter."""
    ctx = Ctx(pid, 'quick')
    try:
        _, prod = ctx.baseline(scn)
    finally:
        ctx.close()
    with open(out, 'wb') as f:
        pickle.dump(prod, f)


def elsewhere(ctx, scn, env):
    """Products of the same run in a fresh interpreter with other environment variables."""
    d = tempfile.mkdtemp(prefix='elsewhere.', dir=os.environ.get('VSIM_SCRATCH'))
    try:
        out = os.path.join(d, 'out')
        cfg = dict(mode='products', prop=ctx.prop, libdir=CFG['libdir'], scn=scn, out=out)
        with open(os.path.join(d, 'err'), 'wb') as err:
            p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'vsim', 'worker.py'), json.dumps(cfg)],
                               env=dict(os.environ, **env), cwd=VERIF, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                               timeout=120)
        if not os.path.exists(out):
            with open(os.path.join(d, 'err'), errors='replace') as f:
                t = f.read()
            if 'Incomplete' in t:
                return None
            raise core.HarnessError('no products: %s %s' % (p.returncode, t[-2000:]))
        with open(out, 'rb') as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(pid, path):
    """Re-execute a replay file; returns list of violations."""
    prop = load_prop(pid)
    with open(path) as f:
        rec = json.load(f)
    ctx = Ctx(pid, 'quick')
    try:
        v = execute(prop, ctx, rec['spec'])
    finally:
        ctx.close()
    return v or []
