"""Several scenarios side by side, several runs in one process or at the same time (P18, P19)."""
import os
import shutil
import sys

from .. import scenario as S, seams
from ..seams import STATE


def load(ctx, scns):
    b = ctx.bench
    key = 'multi:' + S.dumps({'x': scns})
    if b.scn == key:
        return
    for d in ('in', 'out', 'cwd', 'tmp', 'home', 'std'):
        shutil.rmtree(b.path(d), ignore_errors=True)
        os.mkdir(b.path(d))
    for k, s in enumerate(scns):
        S.materialise(s, b.path('in', 's%d' % k))
        put_config(b, k, s)
    b.scn = key
    b.now = list(range(len(scns)))


def put_config(b, k, scn):
    d = b.path('in', 'conf%d' % k)
    os.makedirs(d, exist_ok=True)
    S.materialise_config(scn, d)


def place(b, scns, d, k):
    """Make directory in/s<d> hold the trials of scenario k."""
    if b.now[d] != k:
        shutil.rmtree(b.path('in', 's%d' % d))
        S.materialise(scns[k], b.path('in', 's%d' % d))
        b.now[d] = k


def args_of(b, scns, conf, files, d, out, processes=None):
    """Command line: configuration `conf`, the files of scenario `files` placed in directory d."""
    a = S.argv(scns[files], b.root, outdir=out, indir='in/s%d' % d)
    a[a.index('-c') + 1] = b.path('in', 'conf%d' % conf, 'config.yaml')
    return a


def reset(b, nout):
    b.reset(outs=tuple('out%d' % k for k in range(nout)))


def products(b, d):
    return b.products(d)
