"""C01: mapping pairs."""
import random
from dfir_ntfs import MFT

ID = 'C01'
W = 10


def runs(tier):
    # 0x11/0x21/0x12: valid headers; 0x01: a hole; 0x10/0x91/0x19: invalid headers; 0x80/0xFF: negative numbers
    if tier == 'quick':
        return [dict(module='MappingPairs', constants={'Alphabet': '{0, 1, 17, 33, 128, 255}', 'MaxLen': '5'}),
                dict(module='MappingPairs', cases=False, constants={'Alphabet': '{0, 2, 9, 16, 18, 127, 145, 254}', 'MaxLen': '4'})]
    return [dict(module='MappingPairs', constants={'Alphabet': '{0, 1, 17, 33, 128, 255}', 'MaxLen': '6'}, workers=8),
            dict(module='MappingPairs', cases=False, constants={'Alphabet': '{0, 1, 2, 17, 18, 34, 255}', 'MaxLen': '6'}, workers=8),
            dict(module='MappingPairs', cases=False, constants={'Alphabet': '{0, 2, 9, 16, 18, 25, 127, 145, 254}', 'MaxLen': '5'}, workers=8)]


def wide(v):
    return list(int(v).to_bytes(W, 'little', signed=True))


def execute(inp):
    raw = bytes(inp['bytes'])
    try:
        got = MFT.DecodeMappingPairs(raw)
    except MFT.MasterFileTableException:
        return {'st': 'reject', 'runs': []}
    return {'st': 'ok', 'runs': [{'lcn': [] if o is None else wide(o), 'n': wide(n)} for o, n in got]}


def enc(v, minlen=1):
    n = minlen
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'little', signed=True)


def random_pairs(rng):
    """A plausible encoding (possibly fragmented, sparse, with long integers), sometimes damaged."""
    out = b''
    cur = 0
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13])):
        bits = rng.choice([3, 7, 8, 15, 16, 31, 32, 47, 62])
        cnt = rng.randrange(1, 1 << bits) if rng.random() < 0.97 else rng.choice([0, -1, -128])
        c = enc(cnt, rng.choice([1, 1, 1, 2, 4, 8]))
        if rng.random() < 0.25:
            o = b''
        else:
            new = rng.choice([rng.randrange(1, 1 << rng.choice([4, 8, 16, 31, 33, 50, 62])), cur + 1, max(1, cur - 1), 0 if rng.random() < 0.2 else 5])
            if rng.random() < 0.03:
                new = -new
            o = enc(new - cur, rng.choice([1, 1, 2, 3, 8]))
            if len(o) <= 8:
                cur = new
        if rng.random() < 0.02:   # a number that is too wide, but whole
            if rng.random() < 0.5 or not o:
                c = enc(abs(cnt) or 1, rng.choice([9, 10, 15]))
            else:
                o = (new - 0).to_bytes(rng.choice([9, 10, 15]), 'little', signed=True)
        if len(c) > 8 and rng.random() < 0.2:
            c = c[:8]
        out += bytes([(len(o) & 15) << 4 | (len(c) & 15)]) + c + o
    out += b'\0' + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3, 7])))
    r = rng.random()
    if r < 0.15:
        out = out[:rng.randrange(len(out) + 1)]
    elif r < 0.3 and out:
        out = bytearray(out)
        out[rng.randrange(len(out))] = rng.choice([0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xff, rng.randrange(256)])
    return bytes(out)


def long_pairs(rng, k):
    out, cur = b'', 0
    for _ in range(k):
        c = enc(rng.randrange(1, 1 << rng.choice([4, 7, 12])))
        o = b''
        if rng.random() > 0.1:
            new = rng.randrange(1, 1 << rng.choice([7, 16, 24, 33]))
            o = enc(new - cur)
            cur = new
        out += bytes([len(o) << 4 | len(c)]) + c + o
    return out + b'\0'


def gen(rng, tier):
    n = 4000 if tier == 'quick' else 60000
    for _ in range(n):
        yield {'bytes': list(random_pairs(rng))}
    # heavily fragmented files
    for k in [64, 65, 127, 128, 129, 255, 256, 257, 300] + [rng.randrange(60, 400) for _ in range(20 if tier == 'quick' else 300)]:
        yield {'bytes': list(long_pairs(rng, k))}


GENERATORS = {'MappingPairs': gen}
