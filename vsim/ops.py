"""
Random histories of library operations on a small store of objects, described by
JSON, and their interpreter.  Arguments are relative to the objects they are applied
to, so that the same history means the same thing wherever it is run.
"""
import copy
import pickle

from . import objects as O


class NA(Exception):
    """The operation does not apply to what its slot holds."""


def kind(o):
    import numpy as np
    import riptide
    for k, c in (('ts', riptide.TimeSeries), ('pg', riptide.Periodogram), ('cand', riptide.Candidate), ('arr', np.ndarray),
                 ('dict', dict), ('list', list)):
        if isinstance(o, c):
            return k
    return 'val'


def clone(o, order='C'):
    """An independent object equal to `o`, in the layout a loaded one has (order C) or in that of an
    unpickled one (P: that of numpy arrays pickled alone)."""
    import numpy as np
    import pandas
    import riptide
    if isinstance(o, riptide.TimeSeries):
        t = riptide.TimeSeries(np.array(o.data), o.tsamp, metadata=None)
        t.metadata = clone(o.metadata, order)
        return t
    if isinstance(o, riptide.Periodogram):
        return riptide.Periodogram(clone(o.widths, order), clone(o.periods, order), clone(o.foldbins, order), clone(o.snrs, order),
                                   metadata=clone(o.metadata, order))
    if isinstance(o, riptide.Candidate):
        return riptide.Candidate(clone(o.params, order), clone(o.tsmeta, order), clone(o.peaks, order), clone(o.subints, order))
    if isinstance(o, riptide.Metadata):
        return riptide.Metadata({k: clone(v, order) for k, v in o.items()})
    if isinstance(o, np.ndarray):
        return pickle.loads(pickle.dumps(o)) if order == 'P' else np.array(o, order=order)
    if isinstance(o, pandas.DataFrame):
        return o.copy()
    if isinstance(o, dict):
        return {k: clone(v, order) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clone(v, order) for v in o]
    return copy.deepcopy(o)


def finger(o, ident=True):
    """What must not change when an object is only read: values, attributes, array flags and identity."""
    import numpy as np
    import pandas
    out = [type(o).__name__, O.canon(o)]

    def walk(x, depth):
        if depth > 6:
            return
        if isinstance(x, np.ndarray):
            out.append((x.dtype.str, x.flags.writeable, x.flags.c_contiguous) + ((id(x), x.ctypes.data) if ident else ()))
        elif isinstance(x, pandas.DataFrame):
            out.append((list(map(str, x.columns)), [str(t) for t in x.dtypes], [str(i) for i in x.index[:50]]))
        elif isinstance(x, dict):
            out.append([str(k) for k in x])
            for v in x.values():
                walk(v, depth + 1)
        elif isinstance(x, (list, tuple)):
            out.append(len(x))
            for v in x:
                walk(v, depth + 1)
        d = getattr(x, '__dict__', None)
        if d is not None and type(x).__module__.startswith('riptide'):
            out.append(sorted(d))
            for k in sorted(d):
                walk(d[k], depth + 1)
    walk(o, 0)
    return repr(out)


# ------------------------------------------------------------ generation ----

TSOPS = ['normalise', 'normalise', 'deredden', 'deredden', 'downsample', 'downsample', 'fold', 'fold', 'copy', 'search', 'search',
         'mutate', 'setmeta', 'read', 'arrays', 'rmed', 'cand', 'cand']
PGOPS = ['peaks', 'peaks', 'read', 'mutate', 'setmeta', 'copy']
CANDOPS = ['read', 'read', 'read', 'mutate', 'setmeta', 'copy']


def gen_op(r, kinds, nslots=6, plots=0.03):
    """One operation for a store whose slots hold `kinds` ({slot: kind}, updated)."""
    free = [k for k in range(nslots) if k not in kinds] or list(range(nslots))
    if not kinds or (len(kinds) < 2 and r.random() < 0.5):
        to = r.choice(free)
        spec = r.choice([lambda r: O.gen_ts(r, big=True), lambda r: O.gen_ts(r, big=True), O.gen_ts, O.gen_cand, O.gen_pg])(r)
        tidy(spec)
        kinds[to] = {'ts': 'ts', 'pg': 'pg', 'pgs': 'pg', 'cand': 'cand'}[spec['k']]
        return {'op': 'new', 'to': to, 'obj': spec}
    s = r.choice(sorted(kinds))
    k = kinds[s]
    to = r.choice(free)
    if r.random() < 0.06:
        ss = sorted(r.sample(sorted(kinds), r.randint(1, len(kinds))))
        how = r.choice(['list', 'dict'])
        kinds[to] = how
        return {'op': 'pack', 'ss': ss, 'how': how, 'to': to, 'of': [kinds.get(x) for x in ss]}
    if k in ('list', 'dict'):
        kinds[to] = 'ts'     # best guess
        return {'op': 'unpack', 's': s, 'i': r.randrange(4), 'to': to}
    if k == 'arr':
        return {'op': 'arrays', 's': s, 'p': r.randint(3, 9)}
    inp = r.random() < 0.5
    o = r.choice({'ts': TSOPS, 'pg': PGOPS, 'cand': CANDOPS}[k])
    op = {'op': o, 's': s}
    if k in ('pg', 'cand') and r.random() < plots:
        return {'op': 'plot', 's': s}
    if o in ('normalise', 'deredden', 'downsample'):
        op['to'] = None if inp else to
        if o == 'deredden':
            op['q'], op['minpts'] = r.choice([0.003, 0.02, 0.1, 0.3, 0.8]), r.choice([3, 11, 51, 101, 101])
            if r.random() < 0.15:
                op['q'], op['minpts'] = r.choice([(1.7, 101), (0.1, 10), (-0.1, 11), (0.0, 5)])
        if o == 'downsample':
            op['f'] = r.choice([1.5, 2, 2.0, 3.7, 1.0001, 7.0, r.uniform(1.01, 5)])
            if r.random() < 0.15:
                op['f'] = r.choice([1.0, 0.5, 0.0, -2.0, 1e9, float('nan'), '2'])
        if op['to'] is not None:
            kinds[to] = 'ts'
    elif o == 'fold':
        op.update(qp=r.choice([0.01, 0.05, 0.2, 0.49, 0.5, 0.9, 1.0]), bins=r.choice([2, 4, 8, 16, 32]),
                  subints=r.choice([None, 1, 2, 3, 5]), to=to)
        if r.random() < 0.12:
            op.update(r.choice([{'qp': 1.5}, {'bins': 5000}, {'subints': 10000}, {'subints': 0}, {'bins': 0}, {'qp': 0.0}]))
        kinds[to] = 'arr'
    elif o == 'copy':
        op['to'] = to
        kinds[to] = k
    elif o in ('search', 'cand'):
        b = r.choice([8, 10, 16])
        op.update(bins=[b, b + r.choice([1, 2, 4])], p=[round(r.uniform(1.001, 1.3), 4), round(r.uniform(1.4, 3), 4)],
                  deredden=r.random() < 0.5, norm=r.random() < 0.2, q=r.choice([0.02, 0.1, 0.3]), minpts=r.choice([11, 51, 101]))
        if o == 'search':
            op.update(to=to, to2=r.choice([x for x in range(nslots) if x != to]))
            kinds[to] = 'ts'
            kinds[op['to2']] = 'pg'
        else:
            op.update(to=to, n=r.choice([1, 3, 20]), subints=r.choice([None, 1, 4, 16]), fb=r.choice([8, 16, 5]))
            kinds[to] = 'cand'
    elif o == 'peaks':
        op.update(smin=r.choice([-5.0, 1.0, 3.0, 6.0]), segwidth=r.choice([5.0, 2.0, 20.0]), nstd=r.choice([0.1, 2.0, 6.0]),
                  minseg=r.choice([3, 10]), polydeg=r.choice([1, 2]), clrad=r.choice([0.1, 0.5, 2.0]))
    elif o == 'mutate':
        op.update(i=r.random(), v=r.choice([0.0, 1.5, -7.0, r.uniform(-100, 100)]), n=r.choice([1, 1, 10]))
    elif o == 'setmeta':
        op.update(k=r.choice(['note', 'dm', 'source_name', 'é']), v=r.choice([1.5, 2.5, 1e-3]))
        if op['k'] == 'source_name':
            op['v'] = r.choice(['A', 'B 1\n', 'é'])
    elif o == 'read':
        op['what'] = r.choice({'ts': ['nsamp', 'length', 'tobs', 'tsamp', 'str', 'data', 'metadata'],
                               'pg': ['freqs', 'tobs', 'periods', 'metadata'],
                               'cand': ['profile', 'dm_curve', 'dm_curve', 'str', 'tsmeta', 'peaks', 'params']}[k])
    elif o == 'arrays':
        op['p'] = r.choice([2, 7, 16, 33])
    elif o == 'rmed':
        op.update(q=r.choice([0.01, 0.1, 0.5]), minpts=r.choice([5, 11, 101]), fast=r.random() < 0.5)
    return op


def tidy(spec):
    """Memory layouts a loaded object does not keep are not part of its value."""
    if spec['k'] == 'ts':
        if spec['dtype'] == 'f4s':
            spec['dtype'] = 'f4'
        spec['special'] = False
    if spec['k'] == 'pgs':
        tidy(spec['ts'])


# ------------------------------------------------------------ interpreter ----

class Store:
    def __init__(self):
        self.s = {}

    def get(self, k, want=None):
        if k not in self.s or (want and kind(self.s[k]) not in want):
            raise NA()
        return self.s[k]

    def apply(self, op):
        """('ok', canonical result) / ('exc', type name) / ('na',)"""
        import warnings
        import numpy as np
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                return ('ok', O.canon(self._apply(op)))
            except NA:
                return ('na',)
            except (OSError, MemoryError):
                raise
            except Exception as e:
                return ('exc', type(e).__name__)

    def _apply(self, op):
        r = getattr(self, 'do_' + op['op'])(op)
        return r

    # every operation returns what it returned to its caller
    def do_new(self, op):
        self.s[op['to']] = O.build(op['obj'])

    def do_normalise(self, op):
        t = self.get(op['s'], 'ts')
        return self._inout(op, t, lambda inplace: t.normalise(inplace=inplace))

    def do_deredden(self, op):
        t = self.get(op['s'], ('ts',))
        return self._inout(op, t, lambda inplace: t.deredden(self.width(t, op['q']), minpts=op['minpts'], inplace=inplace))

    def do_downsample(self, op):
        t = self.get(op['s'], ('ts',))
        return self._inout(op, t, lambda inplace: t.downsample(op['f'], inplace=inplace))

    @staticmethod
    def width(t, q):
        k = int(round(q * t.nsamp))
        return (k | 1) * t.tsamp if k > 0 else k * t.tsamp

    def _inout(self, op, t, fn):
        if op['to'] is None:
            out = fn(True)
            return [out is None, t]
        out = fn(False)
        self.s[op['to']] = out
        return out

    def do_fold(self, op):
        t = self.get(op['s'], ('ts',))
        out = t.fold(op['qp'] * t.length, op['bins'], subints=op['subints'])
        self.s[op['to']] = out
        return out

    def do_copy(self, op):
        o = self.get(op['s'])
        out = o.copy() if kind(o) == 'ts' else copy.deepcopy(o)
        self.s[op['to']] = out
        return out

    def _search(self, op):
        import riptide
        t = self.get(op['s'], ('ts',))
        b0, b1 = op['bins']
        return riptide.ffa_search(t, period_min=t.tsamp * b0 * op['p'][0], period_max=t.tsamp * b0 * op['p'][0] * op['p'][1],
                                  bins_min=b0, bins_max=b1, deredden=op['deredden'], rmed_width=self.width(t, op['q']),
                                  rmed_minpts=op['minpts'], already_normalised=op['norm'])

    def do_search(self, op):
        a, b = self._search(op)
        self.s[op['to']], self.s[op['to2']] = a, b
        return [a, b]

    def do_peaks(self, op):
        import riptide
        p = self.get(op['s'], ('pg',))
        kw = {k: op[k] for k in ('smin', 'segwidth', 'nstd', 'minseg', 'polydeg', 'clrad')}
        peaks, polycos = riptide.find_peaks(p, **kw)
        return [[dict(x._asdict()) for x in peaks], {str(k): list(v) for k, v in polycos.items()}]

    def do_cand(self, op):
        import riptide
        from riptide.pipeline.peak_cluster import PeakCluster
        t, p = self._search(op)
        peaks, _ = riptide.find_peaks(p, smin=-10.0, nstd=0.1, clrad=0.5)
        if not peaks:
            raise NA()
        out = riptide.Candidate.from_pipeline_output(t, PeakCluster(peaks[:op['n']], rank=0), op['fb'], subints=op['subints'])
        self.s[op['to']] = out
        return out

    def do_mutate(self, op):
        o = self.get(op['s'], ('ts', 'pg', 'cand', 'arr'))
        k = kind(o)
        a = o.data if k == 'ts' else o.snrs if k == 'pg' else o.subints if k == 'cand' else o
        f = a.reshape(-1)
        i = min(int(op['i'] * f.size), f.size - 1)
        a.reshape(-1)[i:i + op['n']] += op['v']
        if k == 'cand':
            o.peaks.loc[0, 'snr'] = 1.0
            o.params['snr'] = 1.0
        return o

    def do_setmeta(self, op):
        o = self.get(op['s'], ('ts', 'pg', 'cand'))
        m = o.tsmeta if kind(o) == 'cand' else o.metadata
        m[op['k']] = op['v']
        return m

    def do_read(self, op):
        o = self.get(op['s'], ('ts', 'pg', 'cand'))
        if op['what'] == 'str':
            if kind(o) != 'ts':
                raise NA()
            return str(o)
        try:
            return getattr(o, op['what'])
        except AttributeError:
            raise NA()

    def do_arrays(self, op):
        import numpy as np
        import riptide
        o = self.get(op['s'], ('ts', 'arr'))
        a = o.data if kind(o) == 'ts' else o
        if a.ndim == 1:
            t = riptide.ffa1(a, op['p'])
        else:
            t = riptide.ffa2(np.ascontiguousarray(a))
        return [t, riptide.boxcar_snr(t, np.arange(1, t.shape[-1])), riptide.ffaprd(a.size, 2 + op['p'] % 7)]

    def do_rmed(self, op):
        import riptide
        t = self.get(op['s'], ('ts',))
        k = max(1, min(int(op['q'] * t.nsamp), 3000000 // t.nsamp)) | 1
        return riptide.fast_running_median(t.data, k, op['minpts']) if op['fast'] else riptide.running_median(t.data, k)

    def do_plot(self, op):
        import matplotlib.pyplot as plt
        o = self.get(op['s'], ('pg', 'cand'))
        fig = plt.figure()
        try:
            if kind(o) != 'ts':
                o.plot()
            else:
                plt.close(fig)
                fig = o.plot()
            out = []
            for ax in fig.axes:
                out.append([[l.get_xdata(), l.get_ydata()] for l in ax.lines] + [t.get_text() for t in ax.texts] +
                           [ax.get_title(), list(ax.get_xlim()), len(ax.patches)] + [im.get_array().data for im in ax.images])
            return out
        finally:
            plt.close(fig)

    def do_pack(self, op):
        v = [self.get(x) for x in op['ss']]
        out = v if op['how'] == 'list' else {'é k%d' % i: x for i, x in enumerate(v)}
        self.s[op['to']] = out
        return out

    def do_unpack(self, op):
        o = self.get(op['s'], ('list', 'dict'))
        v = list(o) if isinstance(o, list) else [o[k] for k in sorted(o)]
        if not v:
            raise NA()
        self.s[op['to']] = v[op['i'] % len(v)]
        return self.s[op['to']]
