"""C29: carving file control blocks from a memory image."""
import datetime
import random
import struct
from dfir_ntfs import MFT
from lib import ReadOnlyFile

ID = 'C29'
MIN, MAX = 123000000000000000, 135000000000000000


def runs(tier):
    return [dict(module='Carving', constants={'Scope': '"%s"' % tier}, workers=4, timeout=3000)]


def stamp(rng, c):
    if c == 'min':
        return MIN
    if c == 'max':
        return MAX
    if c == 'below':
        return rng.choice([MIN - 1, MIN - 10, 0, 1, MIN - (1 << 56)])
    if c == 'above':
        return rng.choice([MAX + 1, MAX + 10, (1 << 64) - 1, 1 << 63, MAX + (1 << 56)])
    return rng.randrange(MIN + 1, MAX)


def plausible(b, p):
    return p >= 0 and len(b[p:p + 8]) == 8 and MIN <= struct.unpack_from('<Q', b, p)[0] <= MAX


def page(p, rng):
    """A page with these signatures and timestamps and with no other ones."""
    for _ in range(400):
        b = bytearray(rng.choice([b'\0', b'\x03\x80', b'\xFF']) * 4096)[:p['n']]
        taken = set()
        for q, c in p['st']:
            v = struct.pack('<Q', stamp(rng, c))[:max(0, p['n'] - q)]
            b[q:q + len(v)] = v
            taken.update(range(q, q + 8))
        for q in p['sigs']:
            if q + 2 <= p['n']:
                b[q:q + 2] = b'\x02\x07'
                if not taken & set(range(q + 8, q + 16)) and not set(range(q + 8, q + 16)) & {x + i for x in p['sigs'] for i in (0, 1)}:
                    b[q + 8:q + 16] = struct.pack('<Q', rng.getrandbits(64))[:max(0, min(8, p['n'] - q - 8))]
        b = bytes(b[:p['n']])
        sigs = [i for i in range(0, len(b) - 1) if b[i:i + 2] == b'\x02\x07']
        st = [i for i in range(0, len(b)) if plausible(b, i)]
        if sigs == sorted(s for s in p['sigs'] if s + 2 <= p['n']) and st == sorted(q for q, c in p['st'] if c in ('in', 'min', 'max') and q + 8 <= p['n']):
            return b
    return None


def execute(inp):
    rng = random.Random(repr(inp))
    pages = []
    for p in inp['plan']:
        for _ in range(p['k']):
            b = page(p, rng)
            if b is None:
                return {'st': 'impossible'}     # overlapping structures
            pages.append(b)
    d = b''.join(pages)
    f = ReadOnlyFile(d)
    c = MFT.MetadataCarver(f)
    at = []
    pos = set()
    try:
        for x in c.carve_fcb_timestamps():
            o, q, a = x.positions
            pos.add((q, a))
            ref = struct.unpack_from('<Q', d, o + 8)[0]
            ctime, mtime, etime, atime = struct.unpack_from('<QQQQ', d, o + q)
            real = struct.unpack_from('<Q', d, o + a)[0]
            if x.possible_file_reference != ref:
                return {'st': 'reference', 'at': o}
            for got, want in ((x.ctime, ctime), (x.mtime, mtime), (x.etime, etime), (x.atime, atime), (x.atime_real, real)):
                if got is None or abs((got - datetime.datetime(1601, 1, 1)) - datetime.timedelta(microseconds=want // 10)) > datetime.timedelta(microseconds=4):
                    return {'st': 'time', 'at': o}
            at.append(o)
    except ValueError:
        return {'st': 'rejected', 'at': at}
    return {'st': 'over', 'at': at, 'pos': sorted(pos)}


def agree(m, inp, want, got):
    if got['st'] == 'impossible':
        return True
    if want['tie']:
        return got['st'] in ('over', 'rejected')
    if want['st'] != 'over':
        return got['st'] == 'rejected' and got['at'] == []
    return got['st'] == 'over' and got['at'] == want['at'] and (not got['at'] or [tuple(x) for x in got['pos']] == [(want['d'], want['a'])])


def gen(rng, tier):
    n = 150 if tier == 'quick' else 1500
    while n:
        d = rng.choice(range(0, 150, 2))
        a = rng.choice(range(d + 56, max(d + 60, 214), 2))
        plan = []
        for _ in range(rng.choice([1, 2, 3, 8])):
            sigs, st = [], []
            at = rng.randrange(0, 60)
            for _ in range(rng.choice([1, 2, 5, 12])):
                dd, aa = (d, a) if rng.random() < 0.85 else (rng.choice(range(0, 146, 2)), rng.choice(range(60, 210)))
                if aa < dd + 32:
                    aa = dd + rng.choice([32, 40, 56])
                if dd < 8:
                    pass
                st += [[at + dd + 8 * i, rng.choice(['in'] * 12 + ['min', 'max', 'below', 'above'])] for i in range(4)] + [[at + aa, rng.choice(['in'] * 12 + ['min', 'max', 'below', 'above'])]]
                if dd >= 2:
                    sigs.append(at)
                at += max(aa, dd + 24) + 8 + rng.choice([0, 0, 2, 30, 101, 500])
                if at > 4200:
                    break
            plan.append({'k': rng.choice([1, 1, 2, 5, 12]), 'n': 4096, 'sigs': sigs, 'st': st})
        if rng.random() < 0.4:
            plan.append({'k': 1, 'n': rng.choice([100, 511, 512, 700, 4000]), 'sigs': plan[0]['sigs'], 'st': plan[0]['st']})
        if any(page(p, random.Random(7)) is None for p in plan):
            continue
        n -= 1
        yield {'plan': plan}


GENERATORS = {'Carving': gen}
