"""
Build riptide's C++ extension from /repo's working tree, out of tree, with the
sources and flags setup.py declares.  The result is cached by content (sources,
flags, compiler, CPU), outside git, so that a check never uses a stale build.
"""
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig
import shutil

from .util import REPO, VERIF, eprint


class BuildError(Exception):
    pass


_PROBE = r'''
import runpy, json, sys
ns = runpy.run_path(sys.argv[1], run_name="vsim_probe")
e = ns["ext_modules"][0]
import pybind11
print(json.dumps({"sources": list(e.sources), "cflags": list(e.extra_compile_args),
                  "ldflags": list(getattr(e, "extra_link_args", []) or []),
                  "include": [pybind11.get_include()] + list(getattr(e, "include_dirs", []) or []),
                  "cxx_std": getattr(e, "_cxx_level", None)}))
'''


def _cpu():
    try:
        with open('/proc/cpuinfo') as f:
            lines = f.read().splitlines()
        keep = [l for l in lines if l.startswith(('model name', 'flags'))]
        return '\n'.join(sorted(set(keep)))
    except OSError:
        return ''


WRAP = ['malloc', 'free', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'memalign']


def build_libcpp(python, cache_root=None, variant=''):
    """Return the path of a directory that contains libcpp<ext suffix>.

    variant 'mem': the same code with every heap allocation behind hooks, and the
    module `vmem` that drives them.
    variant 'thr': the same code with a hook in every basic block, and the module
    `vsched` that schedules threads.
    """
    import json
    native = os.path.join(VERIF, 'vsim', 'native')
    probe = subprocess.run([python, '-B', '-c', _PROBE, os.path.join(REPO, 'setup.py')],
                           cwd=REPO, capture_output=True, text=True, timeout=120)
    if probe.returncode:
        raise BuildError('cannot read setup.py: ' + probe.stderr[-2000:])
    info = json.loads(probe.stdout.strip().splitlines()[-1])
    h = hashlib.sha256()
    h.update(json.dumps(info, sort_keys=True).encode())
    h.update(_cpu().encode())
    h.update(subprocess.run(['g++', '--version'], capture_output=True).stdout)
    h.update(sysconfig.get_config_var('EXT_SUFFIX').encode())
    pats = ('*.c', '*.cc', '*.cpp', '*.cxx', '*.h', '*.hh', '*.hpp')
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'riptide')):
        dirs.sort()
        for p in pats:
            import fnmatch
            files += [os.path.join(root, n) for n in fnmatch.filter(names, p)]
    for f in sorted(set(files)):
        h.update(f.encode())
        with open(f, 'rb') as fo:
            h.update(fo.read())
    if variant:
        h.update(variant.encode())
        for n in sorted(os.listdir(native)):
            with open(os.path.join(native, n), 'rb') as fo:
                h.update(fo.read())
    key = h.hexdigest()[:24]
    cache_root = cache_root or os.path.join(VERIF, '.cache')
    out = os.path.join(cache_root, 'libcpp-' + key)
    suffix = subprocess.run([python, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                            capture_output=True, text=True).stdout.strip()
    target = os.path.join(out, 'libcpp' + suffix)
    if os.path.exists(target):
        return out
    os.makedirs(out, exist_ok=True)
    pyinc = subprocess.run([python, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'],
                           capture_output=True, text=True).stdout.strip()
    std = '-std=c++%s' % (info['cxx_std'] or 17)
    tmp = target + '.tmp%d' % os.getpid()
    cmd = (['g++', std, '-shared', '-fPIC', '-fvisibility=hidden', '-g0']
           + info['cflags'] + ['-I' + i for i in info['include']] + ['-I' + pyinc]
           + [os.path.join(REPO, s) for s in info['sources']] + info['ldflags'] + ['-o', tmp])
    if variant:
        name, shim, wrap = {'mem': ('vmem', 'shim.cpp', WRAP),
                            'thr': ('vsched', 'shim_cov.cpp', ['PyEval_SaveThread', 'PyEval_RestoreThread'])}[variant]
        obj = os.path.join(out, 'shim%d.o' % os.getpid())
        vm = os.path.join(out, name + suffix)
        npinc = subprocess.run([python, '-c', 'import numpy;print(numpy.get_include())'], capture_output=True,
                               text=True).stdout.strip()
        for c in (['g++', std, '-c', '-fPIC', '-O2', '-fvisibility=hidden', os.path.join(native, shim), '-o', obj],
                  ['gcc', '-shared', '-fPIC', '-O2', '-I' + pyinc, '-I' + npinc, os.path.join(native, name + '.c'),
                   '-o', vm + '.tmp%d' % os.getpid()]):
            r = subprocess.run(c, capture_output=True, text=True, timeout=600)
            if r.returncode:
                raise BuildError('compiling %s failed:\n%s' % (c[-3], r.stderr[-4000:]))
        os.replace(vm + '.tmp%d' % os.getpid(), vm)
        if variant == 'thr':
            cmd.append('-fsanitize-coverage=trace-pc')
        cmd += [obj, '-Wl,-Bsymbolic', '-static-libstdc++', '-static-libgcc']
        cmd += ['-Wl,--wrap=' + w for w in wrap]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise BuildError('compiling libcpp failed:\n' + r.stderr[-4000:])
    os.replace(tmp, target)
    if variant:
        os.remove(obj)
    # keep the cache small
    olds = sorted(glob.glob(os.path.join(cache_root, 'libcpp-*')), key=os.path.getmtime)
    for d in olds[:-8]:
        if d != out and d.startswith(os.path.join(VERIF, '.cache') + '/libcpp-'):
            shutil.rmtree(d, ignore_errors=True)
    return out
