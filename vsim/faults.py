"""Choosing faults from what a fault-free run of the same scenario did."""
import errno

E = errno
OPEN_R = [E.EACCES, E.EMFILE, E.ENFILE, E.EIO, E.ENOENT, E.ENOMEM]
OPEN_W = [E.EACCES, E.EMFILE, E.ENOSPC, E.EROFS, E.EIO, E.EDQUOT]
WRITE = [E.ENOSPC, E.EDQUOT, E.EIO, E.EFBIG]
CLOSE = [E.EIO, E.ENOSPC, E.EDQUOT]
FORK = [E.EAGAIN, E.ENOMEM]
PATHOP = [E.EACCES, E.EIO, E.ENOSPC]


def occurrences(events):
    """[(kind, rel, n, step, vpid)] where n counts (kind, rel) from 1."""
    occ = {}
    out = []
    for step, vpid, kind, rel, _ in events:
        n = occ[(kind, rel)] = occ.get((kind, rel), 0) + 1
        out.append((kind, rel, n, step, vpid))
    return out


def is_data(rel):
    return rel.startswith('in/') and rel.endswith(('.dat', '.tim'))


def at(o):
    return {'op': o[0], 'rel': o[1], 'n': o[2]}


def pick(r, occ, flt):
    c = [o for o in occ if flt(o)]
    if not c:
        return None
    # spread over files rather than over operations
    groups = {}
    for o in c:
        groups.setdefault((o[0], o[1]), []).append(o)
    return r.choice(groups[r.choice(sorted(groups))])


def error(r, occ, where=None):
    """One I/O, allocation or process-creation error."""
    kinds = ['open', 'open', 'write', 'write', 'write', 'close', 'close', 'read', 'fork', 'mem', 'mem', 'path']
    for _ in range(30):
        k = r.choice(kinds)
        w = where or (lambda o: True)
        if k == 'open':
            o = pick(r, occ, lambda o: o[0] == 'open' and w(o))
            if o:
                e = r.choice(OPEN_W if o[1].startswith('out/') else OPEN_R)
                return {'at': at(o), 'act': {'t': 'errno', 'e': e}}
        elif k == 'write':
            o = pick(r, occ, lambda o: o[0] == 'write' and o[1].startswith('out/') and w(o))
            if o:
                e = r.choice(WRITE)
                act = {'t': 'errno', 'e': e, 'k': r.choice([0, 0, 1, 7, 100, 4096])}
                if e in (E.ENOSPC, E.EDQUOT) and r.random() < 0.5:
                    act['sticky'] = True
                return {'at': at(o), 'act': act}
        elif k == 'close':
            o = pick(r, occ, lambda o: o[0] == 'close' and o[1].startswith('out/') and w(o))
            if o:
                return {'at': at(o), 'act': {'t': 'errno', 'e': r.choice(CLOSE)}}
        elif k == 'read':
            o = pick(r, occ, lambda o: o[0] == 'read' and w(o))
            if o:
                return {'at': at(o), 'act': {'t': 'errno', 'e': E.EIO}}
        elif k == 'fork':
            o = pick(r, occ, lambda o: o[0] == 'fork' and w(o))
            if o:
                return {'at': at(o), 'act': {'t': 'errno', 'e': r.choice(FORK)}}
        elif k == 'mem':
            o = pick(r, occ, lambda o: o[0] == 'kernel' and w(o))
            if o:
                return {'at': at(o), 'act': {'t': 'mem'}}
        else:
            o = pick(r, occ, lambda o: o[0] in ('rename', 'replace', 'unlink', 'remove', 'fsync', 'mkdir', 'truncate',
                                                'listdir') and w(o))
            if o:
                return {'at': at(o), 'act': {'t': 'errno', 'e': r.choice(PATHOP)}}
    return None


def benign(r, occ):
    """A condition the operating system is allowed to produce."""
    k = r.choice(['sread', 'sread', 'swrite', 'swrite', 'stall', 'freeze', 'freeze', 'clock', 'clock'])
    if k == 'sread':
        o = pick(r, occ, lambda o: o[0] == 'read')
        if o:
            return {'at': at(o), 'act': {'t': 'short', 'k': r.choice([1, 2, 3, 5, 17, 100, 1000])}}
    if k == 'swrite':
        o = pick(r, occ, lambda o: o[0] == 'write')
        if o:
            return {'at': at(o), 'act': {'t': 'short', 'k': r.choice([1, 2, 3, 17, 100, 4096])}}
    if k == 'stall':
        return {'at': {'step': r.choice(occ)[3]}, 'act': {'t': 'stall', 's': r.choice([0.5, 30.0, 4000.0, 90000.0])}}
    if k == 'freeze':
        return {'at': {'step': r.choice(occ)[3]}, 'act': {'t': 'freeze', 'steps': r.choice([5, 20, 100, 400])}}
    return {'at': {'step': r.choice(occ)[3]},
            'act': {'t': 'clock', 's': r.choice([-3600.0, 3600.0, -1.0, 86400.0 * 365, -86400.0 * 3650, -1e9])}}


def all_short(r):
    """Every read or every write of the run is short."""
    if r.random() < 0.5:
        return {'at': {'op': 'write', 'rel': 'out/*', 'every': True}, 'act': {'t': 'short', 'k': r.choice([511, 997, 4096])}}
    return {'at': {'op': 'read', 'rel': 'in/*', 'every': True}, 'act': {'t': 'short', 'k': r.choice([509, 1024, 4099])}}


def kill_main(r, occ, orphans=None, where=None):
    """The machine or the whole program is killed at some operation."""
    w = where or (lambda o: True)
    orph = (r.random() < 0.3) if orphans is None else orphans
    for _ in range(10):
        if r.random() < 0.6:
            o = pick(r, occ, lambda o: o[0] in ('write', 'open', 'close') and o[1].startswith('out/') and w(o))
        else:
            o = pick(r, occ, lambda o: o[0] not in ('hello',) and w(o))
        if o:
            if o[0] == 'write' and r.random() < 0.6:
                return {'at': at(o), 'act': {'t': 'torn', 'k': r.choice([0, 1, 13, 200, 3000, 8191]), 'who': 'main',
                                             'orphans': orph}}
            return {'at': at(o), 'act': {'t': 'kill', 'who': 'main', 'orphans': orph}}
    return None


def kill_worker(r, occ, workers):
    """A worker dies (OOM killer, crash) at one of its operations."""
    ops = [o for o in occ if o[4] in workers]
    if not ops:
        return None
    o = pick(r, ops, lambda o: True)
    return {'at': at(o), 'act': {'t': 'kill', 'who': 'self'}}


def label(f):
    a = f['act'] if 'act' in f else f
    t = a['t']
    if t == 'errno':
        return 'errno:%s:%s' % (f['at'].get('op', '?'), errno.errorcode.get(a['e'], a['e']))
    return t
