"""C18: the catalogue of shadow copies."""
import random
import struct
import uuid
from dfir_ntfs import ShadowCopy
import vss
from vss import BS

ID = 'C18'
N = 300   # blocks of the volume


def runs(tier):
    def job(family, **kw):
        return dict(module='VssCatalogue', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=4, heap='6g', **kw)
    return [job('start'), job('chain', cases=False), job('items', cases=False), job('stores', cases=False)]


def guid(g):
    return uuid.UUID(int=0x11223344556677880000000000000000 + g * 0x0101)


def slot(g, b, i):
    return 100 + g * 20 + b * 5 + i


def stamp(g):
    return 131000000000000000 + g * 36000000000


def execute(inp):
    rng = random.Random(repr(inp))
    two = inp['two']
    base, sbase = rng.choice([0, 512, 1 << 20]), rng.choice([0, 1536, 1 << 33])
    pblocks = {}
    sblocks = {} if two else pblocks
    free = {id(pblocks): rng.sample(range(1, 90), 80)}
    free[id(sblocks)] = free.get(id(sblocks)) or rng.sample(range(1, 90), 80)
    salt = rng.randrange(100)

    def chain(blocks, kind, spec, body):
        at = [free[id(blocks)].pop() for _ in spec]
        for j, b in enumerate(spec):
            nxt = 0 if b['nxt'] == 0 else at[b['nxt'] - 1] * BS if b['nxt'] <= len(at) else (N + 50) * BS
            me = at[j] * BS if b['self'] else rng.choice([0, at[j] * BS + BS, at[j] * BS + 1, (1 << 63) + at[j] * BS])
            h = bytearray(vss.header(kind if b['k'] != 'type' else rng.choice([x for x in (0, 1, 2, 3, 4, 5, 6, 7, kind + 256) if x != kind]), j * BS, me, nxt))
            if b['k'] == 'guid':
                h[rng.randrange(16)] ^= rng.choice([1, 0x80])
            blocks[at[j]] = (bytes(h).ljust(0x80, b'\0') + body(j + 1, b['its'])).ljust(BS, b'\0')
        return at[0] * BS if at else 0

    starts = []
    for g, st in enumerate(inp['stores'], 1):
        def diff(b, its):
            out = b''
            for i, x in enumerate(its, 1):
                o = slot(g, b, i) * BS
                if x == 'ok':
                    at = free[id(sblocks)].pop()
                    sblocks[at] = b''.join(vss.cell(slot(g, b, i), salt))
                    out += struct.pack('<QQQLL', o, i * BS, at * BS, rng.choice([0, 8, 0x10, 0x80]), 0)
                elif x == 'ign':
                    out += struct.pack('<QQQLL', o, i * BS, 3 * BS, 4 | rng.choice([0, 1, 2, 0x40]), 0)
                elif x == 'end':
                    out += struct.pack('<QQQLL', 0, 0, 0, 0, 0)
                else:
                    out += rng.choice([struct.pack('<QQQLL', o, i * BS, BS, 3, 0), struct.pack('<QQQLL', o, i * BS, BS, 0x100, 0), struct.pack('<QQQLL', o + 512, i * BS, BS, 0, 0), struct.pack('<QQQLL', o, i * BS, BS + 1, 0, 0)])
            return out

        def loc(b, its):
            out = b''
            for i, x in enumerate(its, 1):
                out += struct.pack('<QQQ', 0 if x == 'end' else slot(g, b, i) * BS, i * BS, 0 if x == 'bad' else b * BS)
            return out
        starts.append([chain(sblocks, 3, st['diff'], diff), chain(sblocks, 4, st['app'], lambda b, its: b'info %d' % g), chain(sblocks, 5, st['loc'], loc),
                       chain(sblocks, 6, st['bm'], lambda b, its: b''), chain(sblocks, 6, st['prev'], lambda b, its: b'')])

    def body(b, its):
        out = b''
        for x in its:
            if x['t'] in (2, 20):
                it = vss.item2(guid(x['g']), 0 if x['t'] == 20 else N * BS + x['g'] * 512, x['p'], rng.choice([0, 0x400, 0x100]), stamp(x['g']))
            elif x['t'] == 3:
                it = vss.item3(guid(x['g']), *starts[x['g'] - 1])
            elif x['t'] == 1:
                it = vss.FREE_ITEM
            elif x['t'] == 0:
                it = b'\0' * 4 + b'\x02\0\0\0' + b'\x44' * 0x78
            else:
                it = struct.pack('<L', rng.choice([4, 5, 0x102, 0x80000002])).ljust(0x80, b'\0')
            out += it
        return out
    first = [chain(pblocks if c == 0 else sblocks, 2, x, body) for c, x in enumerate(inp['cats'])]
    gp, gs = uuid.UUID(int=5), uuid.UUID(int=6)
    s = inp['start']
    local = not two
    if s == 'other':
        local = not local

    def start(f, mine, store, damage):
        b = bytearray(vss.start_block(f, mine, store, rng.choice([b'NTFS', b'ReFS'])))
        if damage == 'fs':
            b[3:7] = rng.choice([b'MSDO', b'\0\0\0\0', b'ntfs', b'-FVE'])
        if damage == 'guid':
            b[7680 + rng.randrange(16)] ^= 4
        if damage == 'type':
            b[7700] = rng.choice([0, 2, 3])
        if damage in ('off1', 'off2', 'off3'):
            o = {'off1': 7704, 'off2': 7712, 'off3': 7720}[damage]
            b[o + rng.randrange(8)] ^= 0x10
        if damage == 'none':
            b[7728:7736] = bytes(8)
        if damage == 'unaligned':
            b[7728:7736] = struct.pack('<Q', f + rng.choice([1, 512, BS // 2, BS - 1]))
        return bytes(b)
    hurt = rng.choice([0, 1]) if two and s not in ('none', 'other') else 0
    pblocks[0] = start(first[0], gp, gp if local else gs, s if hurt == 0 else 'ok')
    if two:
        sblocks[0] = start(first[1], gs, gs, s if hurt == 1 else 'ok')
    f = vss.SparseFile(pblocks, (N + 9) * BS, base)
    g2 = vss.SparseFile(sblocks, (N + 9) * BS, sbase, salt=9) if two else None
    if s == 'short':
        (f if hurt == 0 else g2).length = 8191

    def open_it():
        if two:
            return ShadowCopy.ShadowParserTwoVolumes(f, g2, base, None, sbase)
        return ShadowCopy.ShadowParser(f, base, None)
    try:
        p = open_it()
    except (ShadowCopy.ShadowCopyException, ShadowCopy.InvalidVolume):
        return {'st': 'rejected'}
    except NotImplementedError:
        return {'st': 'other'}
    listed = []
    try:
        for x in p.shadows():
            g = [y for y in range(1, 9) if guid(y) == x.store_guid]
            if not g or x.volume_size != N * BS + g[0] * 512 or x.timestamp != ShadowCopy.DecodeFiletime(stamp(g[0])):
                return {'st': 'description', 'x': repr(x)}
            listed.append([g[0], x.stack_position])
    except ShadowCopy.ShadowCopyException:
        listed.append([0, 0])
    ans = []
    for q in inp['probes']:
        if rng.random() < 0.3:
            p = open_it()
        try:
            p.select_shadow(q['v'] if q['by'] == 'pos' else guid(q['v']))
        except ShadowCopy.ShadowCopyNotFoundException:
            ans.append({'st': 'missing'})
            continue
        except ShadowCopy.ShadowCopyException:
            ans.append({'st': 'rejected'})
            continue
        except NotImplementedError:
            return {'st': 'other'}
        who = [y for y in range(1, 9) if N * BS + y * 512 == p.seek(0, 2)]
        saved = []
        for g, st in enumerate(inp['stores'], 1):
            for b in range(1, len(st['diff']) + 1):
                for i in range(1, 5):
                    k = slot(g, b, i)
                    p.seek(k * BS)
                    d = p.read(BS)
                    if d == b''.join(vss.cell(k, salt)):
                        saved.append([g, b, i])
                    elif d != f.block(k):
                        return {'st': 'content', 'k': k}
        loc = []
        for v, o, n in p.current_location_description_items:
            x = (v // BS - 100) % 20
            if v != slot(who[0], x // 5, x % 5) * BS or o != (x % 5) * BS or n != x // 5 * BS:
                return {'st': 'location'}
            loc.append([x // 5, x % 5])
        a = p.current_application_information
        ans.append({'st': 'ok', 'g': who[0], 'saved': sorted(saved), 'loc': loc, 'app': a.rstrip(b'\0') == b'info %d' % who[0] if a else False})
    return {'st': 'ok', 'listed': listed, 'ans': ans}


def agree(m, inp, want, got):
    if want['loop'] and got['st'] == 'rejected':
        return True
    if want['st'] != got['st']:
        return False
    if want['st'] != 'ok':
        return True
    if want['listed'] != got['listed'] or len(want['ans']) != len(got['ans']):
        return False
    for a, b in zip(want['ans'], got['ans']):
        if a['loop'] and b['st'] == 'rejected':
            continue
        if a['st'] != b['st']:
            return False
        if a['st'] == 'ok' and (a['gs'][0] != b['g'] or sorted(a['saved']) != b['saved'] or a['loc'] != b['loc'] or a['app'] != b['app']):
            return False
    return True


def gen(rng, tier):
    for _ in range(1500 if tier == 'quick' else 20000):
        n = rng.choice([1, 2, 3, 5, 7])
        pos0 = rng.choice([0, 1, 4])
        two = rng.random() < 0.5
        order = list(range(1, n + 1))
        rng.shuffle(order)
        pos = {g: pos0 + k + (3 if rng.random() < 0.1 and k == n - 1 else 0) for k, g in enumerate(order)}

        def blocks(items, p):
            nb = rng.choice([1, 1, 2, 3])
            out = []
            for j in range(nb):
                its = items[j::nb]
                out.append({'k': 'ok' if rng.random() < 0.97 else rng.choice(['type', 'guid']), 'self': rng.random() < 0.97, 'nxt': (j + 2 if j + 1 < nb else 0) if rng.random() < 0.93 else rng.randrange(0, nb + 2), 'its': its})
            return out

        def items(ts):
            out = [{'t': t, 'g': g, 'p': pos[g] if t == 2 else 0} for t in ts for g in range(1, n + 1) if rng.random() < 0.96]
            if rng.random() < 0.1 and out:
                out.append(rng.choice(out))
            rng.shuffle(out)
            if rng.random() < 0.4:
                out.insert(rng.randrange(len(out) + 1), {'t': 1, 'g': 0, 'p': 0})
            elif rng.random() < 0.05:     # a block full of items
                for _ in range(rng.choice([40, 100, 127]) - len(out)):
                    out.insert(rng.randrange(len(out) + 1), {'t': 1, 'g': 0, 'p': 0})
            if rng.random() < 0.06:
                out.insert(rng.randrange(len(out) + 1), {'t': rng.choice([0, 9]), 'g': 0, 'p': 0})
            return out

        def sub(kinds, p):
            q = [[rng.choice(kinds) if rng.random() < 0.1 else 'ok' for _ in range(rng.choice([0, 1, 2]))] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            return [{'k': 'ok' if rng.random() < 0.98 else 'type', 'self': rng.random() < 0.97, 'nxt': (j + 2 if j + 1 < len(q) else 0) if rng.random() < 0.95 else rng.randrange(0, len(q) + 2), 'its': x} for j, x in enumerate(q)]
        stores = [{'diff': sub(['ign', 'end', 'bad'], 1), 'bm': [dict(x, its=[]) for x in sub(['ok'], 1)], 'prev': [dict(x, its=[]) for x in sub(['ok'], 1)], 'loc': sub(['end', 'bad'], 1), 'app': [{'k': 'ok', 'self': rng.random() < 0.9, 'nxt': 0, 'its': []}] if rng.random() < 0.8 else []} for _ in range(n)]
        probes = [{'by': 'pos', 'v': rng.randrange(0, n + 6)} for _ in range(3)] + [{'by': 'guid', 'v': g} for g in rng.sample(range(1, n + 1), min(n, 3))]
        rng.shuffle(probes)
        yield {'two': two, 'start': 'ok', 'cats': [blocks(items([2]), 1), blocks(items([3]), 1)] if two else [blocks(items([2, 3]), 1)], 'stores': stores, 'probes': probes}


GENERATORS = {'VssCatalogue': gen}
