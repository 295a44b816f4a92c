"""C06: streams split over attribute records."""
import struct
from dfir_ntfs import MFT
import ntfs

ID = 'C06'
NAMES = {0: None, 1: 'Aa', 2: 'aA', 3: '$I30', 4: 'A', 5: 'Aab'}
CODES = {v: k for k, v in NAMES.items()}
QUERIES = [(128, 0), (128, 1), (128, 2), (160, 0), (160, 1), (128, 4), (128, 5), (160, 3)]


def runs(tier):
    return [dict(module='Streams', constants={'Scope': '"%s"' % tier}, workers=8, heap='8g')]


def record(inp):
    segs = [[], [], []]
    for k, p in enumerate(inp['pieces'], 1):
        if p['res']:
            a = ntfs.resident(p['t'], struct.pack('<H', k), NAMES[p['nm']], instance=k)
        else:
            a = ntfs.nonresident(p['t'], ntfs.pairs([(None if l == -1 else l, c) for l, c in p['runs']]), p['lo'], p['hi'], p['fs'], NAMES[p['nm']], instance=k)
        cut = inp['cut']
        at = 0 if k <= cut else 1 if k <= cut + 2 else 2
        if at == 2 and sum(map(len, segs[-1])) + len(a) > 3000:
            segs.append([])
        segs[at if at < 2 else -1].append(a)
    f = [MFT.FileRecordSegment(ntfs.frs(s, size=4096, number=40 + i, base=0 if i == 0 else ntfs.ref(40, 1)), suggested_mft_number=40 + i) for i, s in enumerate(segs)]
    return MFT.FileRecord(f[0], f[1:] if len(inp['pieces']) > inp['cut'] else [])


def enc(rr):
    return [[-1 if a is None else a, b] for a, b in rr]


def execute(inp):
    r = record(inp)
    out = []
    for t, nm in QUERIES:
        arg = NAMES[nm]
        for name in ([arg, ''] if arg is None else [arg]):
            try:
                v = r.get_data_runs(name, t == 160)
                a = {'q': 'none', 'r': []} if v is None else {'q': 'ok', 'r': enc(v)}
            except MFT.AttributeException:
                a = {'q': 'err', 'r': []}
            z = r.get_data_size(name, t == 160)
            a['sz'] = -1 if z is None else z
            if name == '':
                if a != out[-1]:
                    out[-1] = a
            else:
                out.append(a)
    m = []
    for a in r.attributes(True):
        if isinstance(a, MFT.AttributeRecordResident):
            m.append({'res': True, 't': a.type_code, 'nm': CODES[a.name], 'r': [], 'hi': struct.unpack('<H', bytes(a.value))[0], 'fs': 0})
        else:
            assert a.lowest_vcn == 0
            m.append({'res': False, 't': a.type_code, 'nm': CODES[a.name], 'r': enc(a.data_runs), 'hi': a.highest_vcn, 'fs': a.file_size})
    return {'st': 'ok', 'a': out, 'm': m}


def gen(rng, tier):
    for _ in range(400 if tier == 'quick' else 5000):
        ps = []
        for _ in range(rng.randrange(1, 4)):
            t, nm = rng.choice([128, 128, 128, 160, 176, 256]), rng.choice([0, 0, 1, 1, 2, 3, 4, 5])
            lo = 0
            pieces = []
            for _ in range(rng.randrange(1, 6)):
                rr, n = [], 0
                for _ in range(rng.randrange(1, 4)):
                    c = rng.randrange(1, 300)
                    rr.append([-1 if rng.random() < 0.2 else rng.randrange(1, 100000), c])
                    n += c
                pieces.append({'t': t, 'nm': nm, 'res': False, 'lo': lo, 'hi': lo + n - 1, 'runs': rr, 'fs': rng.choice([0, 1, n * 512, n * 4096]) if lo == 0 else rng.choice([0, 5])})
                lo += n
            d = rng.random()
            if d < 0.12 and len(pieces) > 1:
                pieces.pop(rng.randrange(len(pieces)))
            elif d < 0.2:
                pieces.append(dict(rng.choice(pieces)))
            elif d < 0.28:
                pieces[-1] = dict(pieces[-1], lo=max(0, pieces[-1]['lo'] + rng.choice([-1, 1])))
                pieces[-1]['hi'] = max(pieces[-1]['hi'], pieces[-1]['lo'])
            ps += pieces
        for _ in range(rng.randrange(0, 3)):
            ps.append({'t': rng.choice([16, 48 + 1, 128, 144]), 'nm': rng.choice([0, 1, 2]), 'res': True, 'lo': 0, 'hi': 0, 'runs': [], 'fs': 0})
        if rng.random() < 0.6:
            rng.shuffle(ps)
        yield {'pieces': ps[:14], 'cut': rng.randrange(0, 5)}
    for i in range(12 if tier == 'quick' else 150):      # heavily fragmented streams
        lo, ps = 0, []
        for k in range(rng.choice([4, 9, 16])):
            rr = [[-1 if rng.random() < 0.1 else rng.randrange(1, 1 << 24), rng.randrange(1, 60)] for _ in range(rng.choice([1, 20, 40]))]
            n = sum(c for _, c in rr)
            ps.append({'t': 128, 'nm': i % 2, 'res': False, 'lo': lo, 'hi': lo + n - 1, 'runs': rr, 'fs': 12345 if lo == 0 else 0})
            lo += n
        if i % 3 == 1:
            rng.shuffle(ps)
        yield {'pieces': ps, 'cut': 2}
    for fs in (0, 1, 511, 512):                         # one cluster, of which nothing or only a part is in use
        for c in (1, 2, 7):
            yield {'pieces': [{'t': 128, 'nm': 0, 'res': False, 'lo': 0, 'hi': c - 1, 'runs': [[9, c]], 'fs': fs}, {'t': 128, 'nm': 1, 'res': False, 'lo': 0, 'hi': 0, 'runs': [[77, 1]], 'fs': 0}], 'cut': 1}


GENERATORS = {'Streams': gen}
