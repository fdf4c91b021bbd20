#!/usr/bin/env python3
"""
tools/mutate.py list [FILE...]      machine-made changes of the Python sources that pass the repository's tests -> /tmp/mut/survivors.json
tools/mutate.py check [FILE...]     run the checks of the parts concerned on each of them (on copies), report those nothing catches
Small syntactic changes are weaker than planted bugs, but show which statements no check looks at.
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
PY = '/opt/venv/bin/python'
CHECKS = {
    'candidate.py': ['P03', 'P12', 'P08'], 'clustering.py': ['P03', 'P16'], 'metadata.py': ['P09', 'P12', 'P14'],
    'periodogram.py': ['P12', 'P13', 'P16'], 'search.py': ['P02', 'P14', 'P13'], 'serialization.py': ['P12', 'P07'],
    'time_series.py': ['P14', 'P09', 'P12'], 'timing.py': ['P13', 'P01'], 'running_medians.py': ['P14', 'P13', 'P15'],
    'libffa.py': ['P15', 'P13', 'P14'], 'folding.py': ['P03', 'P14', 'P13'],
    'apps/rseek.py': ['P16', 'P10'], 'pipeline/config_validation.py': ['P17', 'P05'], 'pipeline/dmiter.py': ['P02', 'P17', 'P05', 'P01'],
    'pipeline/harmonic_testing.py': ['P04'], 'pipeline/peak_cluster.py': ['P03', 'P04', 'P05'],
    'pipeline/pipeline.py': ['P03', 'P04', 'P05', 'P17', 'P08', 'P06', 'P10'],
    'pipeline/worker_pool.py': ['P02', 'P05', 'P11', 'P01'], 'reading/presto.py': ['P09', 'P02'],
    'reading/samples.py': ['P09', 'P05'], 'reading/sigproc.py': ['P09', 'P02'],
}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '+'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new):
        i, j = pos(n)
        return (n.lineno, '%s -> %s' % (b[i:j].decode()[:70], new[:70]), (b[:i] + new.encode() + b[j:]).decode())
    doc = set()
    skip = ('log', 'plt', 'warnings')
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.JoinedStr):
            for k in ast.walk(n):
                doc.add(id(k))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                                        seg(src, n.value.func).split('.')[0] in skip):
            for k in ast.walk(n):
                if k is not n:
                    doc.add(id(k))
            if isinstance(n, ast.Expr):
                doc.add(id(n))
        if isinstance(n, ast.FunctionDef) and (n.name.startswith(('plot', '_plot', 'display', '__repr__', '__str__')) or n.name in ('savefig',)):
            for k in ast.walk(n):
                doc.add(id(k))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            for k in ast.walk(n):
                doc.add(id(k))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            yield rep(n, '%s %s %s' % (seg(src, n.left), SWAP[type(n.ops[0])], seg(src, n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield rep(n, '(%s %s %s)' % (seg(src, n.left), BIN[type(n.op)], seg(src, n.right)))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield rep(n, '(%s)' % op.join(seg(src, v) for v in n.values))
            for k in range(len(n.values)):
                vs = [v for i, v in enumerate(n.values) if i != k]
                yield rep(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(src, v) for v in vs))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield rep(n, '(%s)' % seg(src, n.operand))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield rep(n, str(not n.value))
            elif isinstance(n.value, int):
                yield rep(n, str(n.value + 1))
            elif isinstance(n.value, float):
                yield rep(n, repr(n.value * 1.5 or 1.0))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    i, j = pos(n)
                    ki, kj = pos(k)
                    t = b[ki:]
                    pre = b[i:ki].rstrip()
                    post = b[kj:j]
                    if pre.endswith(b','):
                        new = pre[:-1] + post
                    else:
                        new = pre + post.lstrip()[1:] if post.lstrip().startswith(b',') else pre + post
                    yield (n.lineno, 'drop keyword %s in %s' % (k.arg, b[i:j].decode()[:60]), (b[:i] + new + b[j:]).decode())
            f = seg(src, n.func)
            if f in ('sorted', 'list', 'tuple', 'abs', 'int', 'float', 'round', 'max', 'min', 'str', 'np.asarray') and len(n.args) == 1 and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
                yield rep(n, '(%s)' % seg(src, n.args[0]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'lower', 'astype') :
                yield rep(n, '(%s)' % seg(src, n.func.value))
            if f in ('max', 'min') and len(n.args) == 2:
                yield rep(n, '%s(%s)' % ('min' if f == 'max' else 'max', ', '.join(seg(src, a) for a in n.args)))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno or isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            yield rep(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield rep(n, 'return None')
        elif isinstance(n, ast.If):
            yield rep(n.test, 'True')
            yield rep(n.test, 'False')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for x in (n.slice.lower, n.slice.upper):
                if x is not None:
                    yield rep(x, '(%s) + 1' % seg(src, x))


def files(args):
    return args or sorted(CHECKS)


def run_tests(k, rel, src):
    d = '%s/t%d' % (W, k)
    p = os.path.join(d, 'riptide', rel)
    old = open(p).read()
    try:
        with open(p, 'w') as f:
            f.write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'riptide/tests'], cwd=d, env=env, timeout=120,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            return r.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        with open(p, 'w') as f:
            f.write(old)


def do_list(args, n=8):
    import queue
    q = queue.Queue()
    for k in range(n):
        shutil.rmtree('%s/t%d' % (W, k), ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', '%s/t%d' % (W, k)], check=True)
        q.put(k)
    todo = []
    for rel in files(args):
        src = open('/repo/riptide/' + rel).read()
        seen = set()
        for line, d, new in mutants(src):
            if new in seen or new == src:
                continue
            seen.add(new)
            try:
                compile(new, rel, 'exec')
            except SyntaxError:
                continue
            todo.append((rel, line, d, new))
    print(len(todo), 'mutants', flush=True)
    out = []

    def one(m):
        k = q.get()
        try:
            if run_tests(k, m[0], m[3]):
                out.append(m)
        finally:
            q.put(k)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, todo))
    out.sort(key=lambda m: (m[0], m[1]))
    with open(W + '/survivors.json', 'w') as f:
        json.dump(out, f)
    print(len(out), 'pass the tests')
    for k in range(n):
        shutil.rmtree('%s/t%d' % (W, k), ignore_errors=True)


def do_check(args):
    ms = [m for m in json.load(open(W + '/survivors.json')) if not args or m[0] in args]
    done = {}
    rp = W + '/results.jsonl'
    if os.path.exists(rp):
        for l in open(rp):
            d = json.loads(l)
            done[(d['file'], d['line'], d['what'])] = d
    c = W + '/c'
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', c], check=True)
    random.Random(5).shuffle(ms)
    for rel, line, what, new in ms:
        if (rel, line, what) in done:
            continue
        p = os.path.join(c, 'riptide', rel)
        with open('/repo/riptide/' + rel) as f:
            old = f.read()
        with open(p, 'w') as f:
            f.write(new)
        by = None
        t0 = time.time()
        rcs = []
        for pid in CHECKS[rel]:
            r = subprocess.run(['python3', 'check.py', pid], cwd=H, env=dict(os.environ, VSIM_REPO=c, VSIM_NOSHRINK='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rcs.append(r.returncode)
            if r.returncode == 1:
                by = pid
                break
        with open(p, 'w') as f:
            f.write(old)
        d = {'file': rel, 'line': line, 'what': what, 'by': by, 'rcs': rcs, 's': round(time.time() - t0)}
        with open(rp, 'a') as f:
            f.write(json.dumps(d) + '\n')
        print(json.dumps(d), flush=True)


if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    (do_list if sys.argv[1] == 'list' else do_check)(sys.argv[2:])
