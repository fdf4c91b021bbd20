"""A scratch root in which simulated runs of the real programs execute."""
import gc
import os
import shutil
import stat
import sys
import tempfile

from . import scenario as S, seams
from .core import Sim
from .seams import STATE, _real
from .util import sha

PRODUCTS = ('peaks.csv', 'clusters.csv', 'candidates.csv')


def is_product(n):
    return n in PRODUCTS or (n.startswith('candidate_') and n.endswith(('.json', '.png')))


def boot(libdir, repo):
    """Prepare this interpreter: seams, imports, subreaper."""
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)     # PR_SET_CHILD_SUBREAPER
    seams.install(repo, libdir)
    import warnings
    warnings.filterwarnings('ignore')
    import numpy  # noqa
    import pandas  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import riptide  # noqa
    import riptide.pipeline.pipeline  # noqa
    import riptide.apps.rseek  # noqa
    import logging.handlers  # noqa
    import threadpoolctl  # noqa
    import encodings.idna  # noqa
    assert riptide.__file__.startswith(repo + '/'), riptide.__file__
    # warm up lazily imported or cached pieces, so that forked runs find them ready
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    c = SkyCoord('00:00:01', '-00:00:01', unit=(u.hour, u.deg))
    c.galactic.l.deg
    c.ra.to_string(unit=u.hour, sep=':', precision=2, pad=True)
    from astropy.time import Time
    Time(59000.0, format='mjd', scale='utc', precision=0).iso
    fig = plt.figure()
    plt.plot([0, 1])
    plt.title('x')
    fig.canvas.draw()
    plt.close(fig)
    from PIL import Image, PngImagePlugin  # noqa
    pandas.DataFrame.from_dict([{'a': 1.0}]).to_csv(None, index=False)
    gc.collect()
    gc.freeze()


def snapshot(d):
    """{relative path: (type, content hash, mtime_ns, mode)} of a tree."""
    out = {}
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for n in sorted(files) + dirs:
            p = os.path.join(base, n)
            st = _real['lstat'](p)
            rel = os.path.relpath(p, d)
            if stat.S_ISREG(st.st_mode):
                with seams.R_open(p, 'rb') as f:
                    h = sha(f.read())
                out[rel] = ('f', h, st.st_mtime_ns, st.st_mode)
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = ('l', os.readlink(p), 0, 0)
            else:
                out[rel] = ('d', '', 0, st.st_mode)
    return out


class Bench:
    def __init__(self, tag=None):
        self.base = os.environ.get('VSIM_SCRATCH')
        self.own = not self.base
        if self.own:
            shm = os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK)
            self.base = tempfile.mkdtemp(prefix='vsim.', dir='/dev/shm' if shm else None)
        self.root = tempfile.mkdtemp(prefix='r.', dir=self.base)
        self.scn = None
        self.runs = 0
        self.sim_time = 0.0
        self.steps = 0

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
        if self.own and '/vsim.' in self.base:
            shutil.rmtree(self.base, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def load(self, scn):
        """Materialise a scenario."""
        self.scn = scn
        for d in ('in', 'out', 'cwd', 'tmp', 'home', 'std'):
            shutil.rmtree(self.path(d), ignore_errors=True)
            os.mkdir(self.path(d))
        S.materialise(scn, self.path('in'))

    def reset(self, keep=(), outs=('out',)):
        for d in ('cwd', 'tmp', 'home', 'std', '_foreign') + tuple(outs):
            if d in keep:
                continue
            shutil.rmtree(self.path(d), ignore_errors=True)
            if d != '_foreign':
                os.mkdir(self.path(d))

    def pipeline(self, name='main', scn=None, argv=None, api=False, **kw):
        """A simulated main program running the pipeline's command line, or (api) a
        Pipeline object that outlives the run."""
        scn = scn or self.scn
        args = argv or S.argv(scn, self.root, **kw)

        def fn():
            if scn.get('script'):
                STATE.kernel_stub = S.stub_periodogram(scn)
            sys.argv = ['rffa'] + args
            import riptide.pipeline.pipeline as m
            if api:
                ns = m.get_parser().parse_args(args)
                p = STATE.keep = m.Pipeline.from_yaml_config(ns.config)
                import matplotlib.pyplot as plt
                plt.switch_backend('Agg')
                return p.process(ns.files, ns.outdir) and None
            return m.main() and None
        return {'name': name, 'fn': fn}

    def run(self, mains, **kw):
        s = Sim(self.root, mains, **kw)
        gc.disable()
        try:
            res = s.run()
        finally:
            gc.enable()
        self.runs += 1
        self.sim_time += res.sim_time
        self.steps += res.steps
        return res

    def products(self, d='out', canon=True):
        out = {}
        for n in sorted(os.listdir(self.path(d))):
            if is_product(n):
                try:
                    with seams.R_open(self.path(d, n), 'rb') as f:
                        b = f.read()
                except OSError:
                    b = b''
                out[n] = b.replace(self.root.encode(), b'@ROOT@') if canon else b
        return out

    def std(self, name, what='stderr'):
        try:
            with seams.R_open(self.path('std', '%s.%s' % (name, what)), 'rb') as f:
                return f.read().decode(errors='replace')
        except OSError:
            return ''
