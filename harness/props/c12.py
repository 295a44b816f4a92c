"""C12: carving of slack areas."""
import datetime, struct
from dfir_ntfs import MFT
from props.c10 import units, same_time

ID = 'C12'


def runs(tier):
    return [dict(module='Carve', constants={'Scope': '"%s"' % tier}, workers=8, heap='8g')]


def le(v, n, signed=False):
    return list(v.to_bytes(n, 'little', signed=signed))


def us(t):
    return -1 if t is None else (t - datetime.datetime(1601, 1, 1)) // datetime.timedelta(microseconds=1)


def carve(value, part):
    out = []
    for r in MFT.SlackSpace(value).carve(True) if part else MFT.SlackSpace(value).carve():
        if isinstance(r, str):
            out.append({'k': 'part', 'a': units(r)})
        else:
            out.append({'k': 'full', 'a': {
                'parent': le(r.get_parent_directory(), 8), 't': [us(r.get_ctime()), us(r.get_mtime()), us(r.get_etime()), us(r.get_atime())],
                'al': le(r.get_allocated_length(), 8, True), 'fs': le(r.get_file_size(), 8, True), 'fa': le(r.get_file_attributes(), 4),
                'ea': le(r.get_packed_ea_size(), 2) + le(r.get_unpacked_ea_size_difference(), 2),
                'nl': r.get_file_name_length(), 'fl': [r.get_flags()], 'name': units(r.get_file_name())}})
    return out


def execute(inp):
    res = []
    for kind in (bytes, bytearray):
        vals = [kind(v) for v in inp['vals']]
        res.append(carve(vals if inp['list'] else vals[0], inp['part']))
    if res[0] != res[1]:
        return {'st': 'differs between bytes and bytearray', 'r': res}
    return {'st': 'ok', 'r': res[0]}


def agree(m, inp, want, got):
    if got.get('st') != 'ok' or len(want['r']) != len(got['r']):
        return False
    for w, g in zip(want['r'], got['r']):
        if w['k'] != g['k']:
            return False
        if w['k'] == 'full':
            if not all(same_time(x, y) for x, y in zip(w['a']['t'], g['a']['t'])):
                return False
            w, g = dict(w['a'], t=0), dict(g['a'], t=0)
        if w != g:
            return False
    return True


LO, HI = 125000000000000000, 145000000000000000


def structure(rng):
    ts = [rng.choice([rng.randrange(130000000000000000, 137000000000000000)] * 8 + [LO, HI]) for _ in range(4)]
    if rng.random() < 0.15:
        ts[rng.randrange(4)] = rng.choice([LO - 1, HI + 1, 0, rng.getrandbits(64)])
    name = ''.join(chr(rng.choice([65, 97, 46, 48, 126, 0x430, 0x2603, 0x1F600])) for _ in range(rng.choice([1, 4, 5, 8, 12, 30, 100, 120])))
    if rng.random() < 0.1:
        name += rng.choice(['/', '\0'])
    raw = name.encode('utf-16le')
    nl = len(raw) // 2 if rng.random() < 0.9 else rng.choice([0, 1, 255])
    return struct.pack('<QQQQQqqLHHBB', rng.getrandbits(64), *ts, rng.getrandbits(40), rng.getrandbits(40), rng.getrandbits(32), rng.getrandbits(16), rng.getrandbits(16), min(nl, 255), rng.randrange(4)) + raw


def area(rng, many=0):
    b = b''
    for _ in range(many or rng.choice([0, 1, 2, 3])):
        k = rng.randrange(6)
        if k == 0:
            b += bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 8, 13, 16])))
        elif k == 1:
            b += bytes(rng.choice([2, 8, 20]))
        elif k == 2:
            b += ''.join(rng.choice('abcZ09_-. ~:/\\\t\u0430') for _ in range(rng.randrange(1, 14))).encode('utf-16le') + bytes(rng.choice([0, 0, 2, 6]))
        elif k == 3:   # timestamps in a row
            b += struct.pack('<%dQ' % 5, *[rng.randrange(LO, HI) for _ in range(5)])
        b += structure(rng)
        b += bytes((-len(b)) % 8) if rng.random() < 0.5 else b''
    if rng.random() < 0.4:
        b = b[rng.choice([1, 2, 4, 8, 8, 10, 30]):]
    if rng.random() < 0.4:
        b = b[:len(b) - rng.choice([1, 2, 3, 8, 20])]
    return b


def gen(rng, tier):
    for k in (17, 33, 40):
        yield {'vals': [list(area(rng, k))], 'list': False, 'part': False}
    yield {'vals': [list(area(rng)) for _ in range(70)], 'list': True, 'part': False}
    for _ in range(1000 if tier == 'quick' else 12000):
        n = rng.choice([1, 1, 1, 0, 2, 3])
        vals = [list(area(rng)) for _ in range(n)]
        yield {'vals': vals, 'list': n != 1 or rng.random() < 0.3, 'part': rng.random() < 0.5}


GENERATORS = {'Carve': gen}
