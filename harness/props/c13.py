"""C13: records of a log file."""
import hashlib
from dfir_ntfs import LogFile
import logfile
from lib import ReadOnlyFile

ID = 'C13'

BASE = '[v |-> %d, k |-> %d, hdr |-> %d, doff |-> %d, seq |-> %d, at |-> %d, pol |-> "%s", rst |-> %s, rec |-> %s]'


def setup(v, k, hdr, doff, seq, at, pol, rst, rec='TRUE'):
    return BASE % (v, k, hdr, doff, seq, at, pol, rst, rec)


def job(setups, sizes, maxops, faults, kinds, tier='quick', **kw):
    return dict(module='LogWriter', constants={'Scope': '"%s"' % tier, 'Setups': '{%s}' % ', '.join(setups), 'Sizes': '{%s}' % ', '.join(map(str, sizes)), 'MaxOps': str(maxops), 'MaxFaults': str(faults), 'Kinds': '{%s}' % ', '.join('"%s"' % k for k in kinds)}, workers=4, heap='6g', **kw)


def runs(tier):
    q = tier == 'quick'
    s1 = [setup(1, 3, 48, 64, 5, 2, pol, '<<>>') for pol in ('none', 'chain', 'undo')] + [setup(1, 3, 56, 128, 5, 2, 'skip', '<<0, 0, 1>>')]
    s2 = [setup(2, 3, 48, 64, 5, 2, pol, '<<1>>') for pol in ('none', 'chain')]
    long = [setup(1, 3, 48, 64, 5, at, 'none', '<<>>') for at in (0, 1)] + [setup(2, 4, 48, 64, 5, 2, 'none', '<<>>')]
    return [job(s1[:1] if q else s1, [32, 1968, 3936, 3944, 6000], 5 if q else 7, 0, ['put']),
            job((s1[1:] if q else s1) + s2[:1], [40, 3000], 5 if q else 7, 1, ['put'], cases=False),
            job(long, [32, 7984, 7976, 8016], 5 if q else 6, 0, ['put'], cases=False),
            job([setup(1, 3, 48, 64, 5, 2, 'none', '<<>>')], [1968], 6 if q else 8, 1, ['put', 'restart'], cases=False)]


def execute(inp):
    log = logfile.build(inp)
    img = log.image(inp)
    f = ReadOnlyFile(img)
    p = LogFile.LogFileParser(f)
    res = []
    for rep in range(2):   # parsing again gives the same
        out = []
        for x in p.parse_ntfs_records() if inp['rec'] else p.parse_ntfs_records(False):
            if isinstance(x, LogFile.NTFSLogRecord):
                out.append([x.lsn, 1, bytes(x.buf), x.transaction_id])
            else:
                out.append([x.lsn, 2, bytes(x.buf), -1])
        res.append(out)
        if p.file_object is not f or f.read.__self__._d != img:
            return {'st': 'the view of the log file was not restored'}
    if res[0] != res[1]:
        return {'st': 'parsing again gave something else'}
    ids = {log.lsn(i + 1): i + 1 for i in range(len(log.recs))}
    got = []
    for lsn, t, buf, tx in res[0]:
        r = ids.get(lsn, 0)
        if r == 0:
            return {'st': 'unknown sequence number', 'lsn': lsn}
        rec = log.recs[r - 1]
        if t != rec['op']['t'] or (t == 1 and tx != 1000 + r):
            return {'st': 'header of record differs', 'r': r}
        got.append([r, len(buf) if buf == rec['data'][:len(buf)] else -2])
    clients = {}
    for r, n in got:
        clients.setdefault(log.recs[r - 1]['op']['c'], []).append(r)
    for c in clients.values():
        if any(a >= b for a, b in zip(c, c[1:])):
            return {'st': 'order', 'r': got}
    return {'st': 'ok', 'r': sorted(got)}


def agree(m, inp, want, got):
    if got.get('st') != 'ok':
        return False
    may = {r: n for r, n in want['may']}
    g = {r: n for r, n in got['r']}
    if len(g) != len(got['r']) or not set(want['must']) <= set(g) <= set(may):
        return False
    return all(may[r] == -1 or may[r] == g[r] for r in g)


def history(rng, sync, tier, big=False):
    v = rng.choice([1, 1, 2])
    inp = {'v': v, 'k': rng.choice([2, 3, 4, 6]) + (1 if sync else 0), 'hdr': rng.choice([48, 48, 56, 64]), 'doff': rng.choice([64, 64, 72, 128]), 'seq': rng.randrange(1, 100), 'at': 0, 'pol': 'none', 'rst': [], 'rec': rng.random() < 0.8 if sync else True, 'ops': [], 'one': rng.choice([0, 0, 0, 1, 2])}
    if big:
        inp['k'] = rng.choice([20, 33, 70])
    elif rng.random() < 0.2:
        inp['k'] = rng.choice([7, 8])
    inp['at'] = rng.randrange(inp['k'])
    log = logfile.Log(inp)
    clients = rng.choice([1, 1, 2])
    sparse = rng.random() < 0.25 and not big   # few links, many records in the first page
    for _ in range(rng.choice([15, 60, 120]) if big else rng.choice([3, 8, 20, 40])):
        n = len(log.recs)
        x = rng.random()
        if n and sync and x < 0.3 and log.since_put < 20:
            op = {'o': 'sync'}
        elif n and sync and v == 2 and x < 0.36 and log.slots:
            op = {'o': 'move', 'a': rng.choice([j + 1 for j in range(32) if 1 + (log.nslot + j) % 32 in log.slots])}
        elif n and (x < (0.4 if sync else 0.15) or log.since_put > 20):
            op = {'o': 'put'}
        else:
            t = rng.choice([1] * 12 + [2, 2, 3])
            size = rng.choice([32, 40, 200, 1000, 2016, 3000, 3976, 3984, 4032, 5000, 9000]) if rng.random() < 0.9 else rng.choice([8, 16, 24])
            o = log.place()[0][2]
            if rng.random() < 0.2:   # end at, or just before, the end of the page
                size = max(8, (logfile.PAGE - o - log.h) - rng.choice([0, 8, 40, 48, 56, 64]))
            if rng.random() < 0.2:   # the same for a record over several pages
                size = (logfile.PAGE - o - log.h) + log.cap * rng.choice([1, 1, 2]) - rng.choice([0, 8, 16, 24, 40, 48, 56])
            if big and rng.random() < 0.15:
                size = rng.choice([16384, 30000, 65536, 66000, 70000])
            if t == 2:
                size = rng.choice([64, 88, 104, 112, 3000, 56])
            if sparse:
                size = rng.choice([32, 40, 64, 104, 1000]) if n < 12 or rng.random() < 0.7 else rng.choice([8000, 9000, 13000, 17000])
            size -= size % 8
            while log.extra(size) >= inp['k'] - 1:
                size = 40
                if log.extra(size) >= inp['k'] - 1:
                    size = 8
                    break
            if log.extra(size) >= inp['k'] - 1:
                break
            op = {'o': 'rec', 'n': size, 'prev': rng.choice([0, n, max(0, n - 1), max(0, n - 3), rng.randrange(n + 1)]), 'undo': rng.choice([0, 0, rng.randrange(n + 1)]), 't': t, 'c': rng.randrange(clients), 'pts': [rng.choice([0, rng.randrange(n + 1)]) for _ in range(5)] if t == 2 else []}
        if sparse and op['o'] == 'rec':
            op.update(prev=rng.choice([0] * 9 + [op['prev']]), undo=max(0, n - rng.choice([0, 1, 2, 3])) if n < 12 and rng.random() < 0.8 else 0)
        inp['ops'].append(op)
        log.do(op)
    n = len(log.recs)
    if n and not sync:
        op = {'o': 'put'}
        inp['ops'].append(op)
        log.do(op)
    for _ in range(rng.choice([0, 0, 1, 2])):
        if sync and rng.random() < 0.5 and log.slots:
            if rng.random() < 0.7:
                inp['ops'].append({'o': 'tearslot', 'a': rng.choice(sorted(log.slots))})
            else:
                inp['ops'].append({'o': 'astray', 'a': rng.choice(sorted(log.slots)), 'x': rng.choice(['past', 'restart', 'between', 'copies', 'huge', 'none' if v == 2 else 'negative'])})
        elif log.disk:
            inp['ops'].append({'o': 'tear', 'a': rng.choice(sorted(log.disk)) - log.f})
    for k in ('rst', 'rst2'):   # checked disk, current, and for each client the oldest one needed and the restart area
        inp[k] = [rng.choice([0, 0, rng.randrange(n + 1)]) for _ in range(2 + 2 * clients)]
    if rng.random() < 0.4:
        inp['rst2'] = inp['rst']
    return inp if n else None


def gen(rng, tier):
    for _ in range(12 if tier == 'quick' else 200):
        x = history(rng, False, tier, True)
        if x:
            yield x
    for _ in range(700 if tier == 'quick' else 10000):
        x = history(rng, False, tier)
        if x:
            yield x


GENERATORS = {'LogWriter': gen}
