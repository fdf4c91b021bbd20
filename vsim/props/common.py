"""Text and helpers shared by the pipeline properties."""
from ..util import sha

REAL_PIPE = ('riptide pipeline program (argument parsing, configuration, DM selection, worker pool tasks, search, peak '
             'finding, clustering, harmonic flagging, filtering, folding, CSV/JSON/PNG writing), compiled kernels, '
             'numpy/pandas/astropy/matplotlib, pickling between processes, Python buffered and text I/O, the file system')
STUB_PIPE = ('multiprocessing.Pool scheduling (real forked workers, simulated queues), raw file operations '
             '(simulator decides outcome, then performed for real), clock, pid, urandom, numpy.fromfile (re-expressed '
             'on the raw file); in scripted scenarios the periodogram kernel returns a prescribed spectrum')
ASSUME_PIPE = [
    'processes interact only through the worker pool and files (true of this code base): switching between processes '
    'at I/O, kernel and task boundaries reaches every distinguishable interleaving',
    'a process forked by anything but a worker pool runs outside the simulation',
]


def diff_products(a, b):
    """Human-readable first difference between two product sets, or None."""
    if sorted(a) != sorted(b):
        return 'files differ: only in first %s, only in second %s' % (sorted(set(a) - set(b))[:5],
                                                                     sorted(set(b) - set(a))[:5])
    for n in sorted(a):
        if a[n] != b[n]:
            x, y = a[n], b[n]
            k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return '%s differs from byte %d (%d and %d bytes): %r / %r' % (
                n, k, len(x), len(y), x[max(0, k - 20):k + 40], y[max(0, k - 20):k + 40])
    return None


def outcome(res, name='main'):
    """'ok', 'error', 'hang', ... of one main program of a run."""
    if res.status != 'done':
        return res.status
    return res.mains.get(name, {}).get('status', 'none')


def digest(res, products):
    return sha(res.digest() + repr(sorted((n, sha(b)) for n, b in products.items())))
