"""Small data sets and pipeline runs for demonstrations (copied beside each demo)."""
import glob, os, shutil, sys, tempfile, copy, hashlib
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
import yaml
import logging
logging.disable(logging.CRITICAL)

INF = """ Data file name without suffix          =  {base}
 Telescope used                         =  Parkes
 Instrument used                        =  Multibeam
 Object being observed                  =  Pulsar
 J2000 Right Ascension (hh:mm:ss.ssss)  =  00:00:01.0000
 J2000 Declination     (dd:mm:ss.ssss)  =  -00:00:01.0000
 Data observed by                       =  Kenji Oba
 Epoch of observation (MJD)             =  59000.000000
 Barycentered?           (1=yes, 0=no)  =  1
 Number of bins in the time series      =  {n}
 Width of each time series bin (sec)    =  {tsamp:.12e}
 Any breaks in the data? (1=yes, 0=no)  =  0
 Type of observation (EM band)          =  Radio
 Beam diameter (arcsec)                 =  981
 Dispersion measure (cm-3 pc)           =  {dm:.12f}
 Central freq of low channel (Mhz)      =  1182.1953125
 Total bandwidth (Mhz)                  =  400
 Number of channels                     =  1024
 Channel bandwidth (Mhz)                =  0.390625
 Data analyzed by                       =  Space Sheriff Gavan
"""


def signal(n, tsamp, pulses, seed):
    r = np.random.RandomState(seed)
    x = r.normal(size=n)
    t = np.arange(n) * tsamp
    for period, amp, ducy in pulses:
        ph = (t / period) % 1.0
        x += amp * (ph < ducy)
    return x.astype(np.float32)


def write_trial(d, dm, pulses=((0.7, 1.5, 0.05),), tobs=40.0, tsamp=2e-3, seed=None, base=None):
    n = int(round(tobs / tsamp))
    base = base or 'x_DM%.2f' % dm
    x = signal(n, tsamp, pulses, int(dm * 100) + 7 if seed is None else seed)
    x.tofile(os.path.join(d, base + '.dat'))
    p = os.path.join(d, base + '.inf')
    with open(p, 'w') as f:
        f.write(INF.format(base=base, n=n, tsamp=tsamp, dm=dm))
    return p


def config(**kw):
    c = {'processes': 2,
         'data': {'format': 'presto', 'fmin': None, 'fmax': None, 'nchans': None},
         'dmselect': {'min': 0.0, 'max': 1000.0, 'dmsinb_max': None},
         'dereddening': {'rmed_width': 4.0, 'rmed_minpts': 101},
         'ranges': [{'name': 'a',
                     'ffa_search': {'period_min': 0.5, 'period_max': 2.0, 'bins_min': 64, 'bins_max': 71},
                     'find_peaks': {'smin': 7.0}, 'candidates': {'bins': 64, 'subints': 8}}],
         'clustering': {'radius': 0.2},
         'harmonic_flagging': {'denom_max': 100, 'phase_distance_max': 1.0, 'dm_distance_max': 3.0,
                               'snr_distance_max': 3.0},
         'candidate_filters': {'dm_min': None, 'snr_min': None, 'remove_harmonics': False, 'max_number': None},
         'plot_candidates': False}
    for k, v in kw.items():
        d = c
        ks = k.split('__')
        for q in ks[:-1]:
            d = d[q]
        d[ks[-1]] = v
    return c


def run(files, outdir, conf):
    from riptide.pipeline.pipeline import get_parser, run_program
    fd, p = tempfile.mkstemp(suffix='.yml')
    with os.fdopen(fd, 'w') as f:
        yaml.safe_dump(conf, f)
    try:
        run_program(get_parser().parse_args(['-c', p, '-o', outdir] + list(files)))
    finally:
        os.unlink(p)


def products(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='demo.')
        return self

    def __call__(self, *a):
        p = os.path.join(self.d, *a)
        os.makedirs(p, exist_ok=True)
        return p

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def finish(ok, msg=''):
    print('ok' if ok else 'BROKEN', msg)
    sys.stdout.flush()
    sys.exit(0 if ok else 1)
