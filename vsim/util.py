"""Small shared helpers: deterministic PRNG derivation, hashing, JSON, logging."""
import hashlib
import json
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSIM_REPO', '/repo')


def derive(*parts):
    """Integer derived only from its arguments (never from hash randomisation)."""
    s = '\x1f'.join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(s).digest()[:8], 'big')


def rng(*parts):
    return random.Random(derive(*parts))


def sha(data):
    if isinstance(data, str):
        data = data.encode()
    return hashlib.sha256(data).hexdigest()


def jdump(obj, path):
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(tmp, path)


def weighted(r, table):
    """table: list of (weight, value)"""
    tot = sum(w for w, _ in table)
    x = r.random() * tot
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)
