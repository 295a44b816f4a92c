"""C20: FAT geometry, chains and content."""
import random
import warnings
from dfir_ntfs.addons import FAT
import fat

ID = 'C20'
FAT.WARN_FUNC = lambda *a: None


def runs(tier):
    def job(family, **kw):
        return dict(module='FatVolume', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=2, **kw)
    return [job('types'), job('boot', cases=False), job('chains', cases=False), job('sizes', cases=False)]


def geometry(x):
    tot = x['t16'] or x['t32'] or x['t64']
    rs = (x['root'] * 32 + x['bps'] - 1) // x['bps'] if x['f16'] and x['bps'] else 0
    fs = x['f16'] or x['f32']
    before = x['rsvd'] + x['nf'] * fs + rs
    count = (tot - before) // (x['spc'] or 256)
    kind = 32 if x['f16'] == 0 else 16 if count >= 4085 else 12
    act = x['act'] if kind == 32 and x['mir'] and x['act'] < x['nf'] else 0
    return {'kind': kind, 'before': before * x['bps'], 'fat': [(x['rsvd'] + i * fs) * x['bps'] for i in range(x['nf'])], 'act': act, 'cs': x['bps'] * (x['spc'] or 256), 'count': count, 'fs': fs * x['bps']}


def execute(inp):
    rng = random.Random(repr(inp))
    base = rng.choice([0, 512, 1 << 20])
    f = fat.Sparse(inp['len'] * 512, base)
    g = geometry(inp)
    for i, at in enumerate(g['fat']):
        n = min(g['fs'], 4096)
        if i == g['act']:
            f.zero(at, n)
            q = [x['c'] for x in inp['q']] + [v for _, v in inp['fat']] + [c + 1 for c, _ in inp['fat']]
            known = set(c for c, _ in inp['fat'])
            extra = [(c, 0) for c in sorted(set(q)) if c <= g['count'] + 1 and c not in known and c >= 0]
            els = extra + [(c, v) for c, v in inp['fat'] if c <= g['count'] + 1]
            els = [(c, v) for c, v in els if {32: 4 * c + 4, 16: 2 * c + 2, 12: c + c // 2 + 2}[g['kind']] <= g['fs']]
            fat.put_fat(f, at, g['kind'], els, rng)
        else:   # a copy that is not in use
            f.put(at, rng.randbytes(n))
    f.put(0, fat.boot(inp, rng))
    try:
        p = FAT.FileSystemParser(f, base, None if inp['vs'] < 0 else inp['vs'] * 512)
    except (FAT.FileSystemException, ValueError, NotImplementedError):
        return {'st': 'rejected', 'type': 0, 'ans': []}
    ans = []
    for q in inp['q']:
        a = {'st': 'ok', 'cl': [], 'n': 0}
        try:
            if q['k'] == 'alloc':
                r = p.fat.is_allocated(q['c'])
                if r is None:
                    a['st'] = 'rejected'
                a['n'] = 1 if r else 0
            elif q['k'] == 'chain':
                a['cl'] = [0 if c is None else c for c in p.fat.chain(q['c'])]
            else:
                d = p.read_chain(q['c'], None if q['n'] < 0 else q['n'])
                a['n'] = len(d)
                if q['n'] > 0:
                    try:
                        whole = p.read_chain(q['c'])
                    except (FAT.FileSystemException, ValueError):
                        whole = d
                    if d != whole[:q['n']]:
                        return {'st': 'the beginning differs', 'q': q}
                for o in range(0, len(d), g['cs']):
                    piece = d[o:o + g['cs']]
                    if not piece.strip(b'\0') and (len(piece) >= 8 or g['count'] < 0):
                        a['cl'].append(0)
                        continue
                    if len(piece) < 8:   # too short to tell which cluster it is from
                        a['cl'].append(-7)
                        continue
                    s = int.from_bytes(piece[:8], 'little') - 1
                    c, r = divmod(s * 512 - g['before'], g['cs'])
                    a['cl'].append(c + 2 if r == 0 and piece == f.get(s * 512, len(piece)) else -1)
        except (FAT.FileSystemException, ValueError):
            a = {'st': 'rejected', 'cl': [], 'n': 0}
        ans.append(a)
    return {'st': 'ok', 'type': p.fat_type, 'ans': ans}


def agree(m, inp, want, got):
    if want['st'] != got['st'] or want['type'] != got['type'] or len(want['ans']) != len(got['ans']):
        return False
    for q, a, b in zip(inp['q'], want['ans'], got['ans']):
        if a['st'] != b['st'] or a['n'] != b['n']:
            return False
        n = len(a['cl']) if q['k'] != 'read' or q['n'] < 0 else len(b['cl'])
        if n > len(a['cl']) or any(u != v and v != -7 for u, v in zip(a['cl'], b['cl'])) or len(b['cl']) != n:
            return False
    return True


def gen(rng, tier):
    for _ in range(1500 if tier == 'quick' else 20000):
        kind = rng.choice([12, 12, 16, 32, 32])
        bps = rng.choice([512, 512, 1024, 2048, 4096])
        spc = rng.choice([1, 1, 2, 8, 64])
        nf = rng.choice([1, 2, 2, 3])
        x = {'bps': bps, 'spc': spc, 'rsvd': rng.choice([1, 2, 32]), 'nf': nf, 'root': 0, 't16': 0, 't32': 0, 't64': 0, 'bsig': rng.choice([0x28, 0x29, 0]), 'f16': 0, 'f32': 0, 'act': rng.randrange(4), 'mir': rng.random() < 0.5, 'ver': 0, 'mark': True, 'jmp': 1}
        if kind == 12:
            count = rng.choice([1, 5, 100, 340, 341, 342, 2000, 4084, 4083])
            need = (count + 2) * 3 // 2 + 1
        elif kind == 16:
            count = rng.choice([4085, 4086, 5000, 20000, 65524])
            need = (count + 2) * 2
        else:
            count = rng.choice([65525, 70000, 100000, 10, 300, 300, 1 << 20, 17000000, 30000000])
            need = (count + 2) * 4
        fs = max(1, -(-need // bps) + rng.choice([0, 0, 1, -1]))
        if kind == 32:
            x['f32'] = fs
            rs = 0
        else:
            x['root'] = rng.choice([16, 112, 512])
            x['f16'] = fs
            rs = (x['root'] * 32 + bps - 1) // bps
        tot = x['rsvd'] + nf * fs + rs + count * spc + rng.randrange(spc)
        if tot < 65536 and rng.random() < 0.5:
            x['t16'] = tot
            x['t32'] = rng.choice([0, 0, 12345])
        elif kind == 32 and rng.random() < 0.1:
            x['t64'], x['bsig'] = tot, 0x29
        else:
            x['t32'] = tot
        if tot * (bps // 512) >= 1 << 31 or max(fs * bps * nf, tot if x['t16'] == x['t32'] == 0 else 0) >= 1 << 31:
            continue
        x['vs'] = rng.choice([-1, -1, tot * bps // 512, tot * bps // 512 - bps // 512, tot * bps // 512 + 8])
        x['len'] = rng.choice([tot * bps // 512, tot * bps // 512, max(8, tot * bps // 512 - rng.randrange(1, 40))])
        eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[kind]
        top = count + 1
        pool = sorted(set(c for c in [2, 3, 4, 5, top, top - 1, top - 2, rng.randrange(2, top + 1), rng.randrange(2, top + 1), rng.randrange(2, top + 1)] if 2 <= c <= top))
        rng.shuffle(pool)
        fatl = []
        for j, c in enumerate(pool):
            v = pool[j + 1] if j + 1 < len(pool) and rng.random() < 0.85 else rng.choice([0, 1, eoc, eoc + 7, eoc - 1, eoc - 2, top + 1, top + 2, rng.choice(pool)])
            fatl.append([c, v])
        x['fat'] = fatl
        q = []
        for _ in range(4):
            c = rng.choice(pool[:2] + [rng.choice(pool), 0, 1, top + 1, eoc - 1, rng.randrange(2, top + 3)])
            cs = bps * spc
            q.append({'k': rng.choice(['chain', 'read', 'read', 'alloc']), 'c': c, 'n': rng.choice([-1, 0, 1, cs, cs + 1, 2 * cs - 1, 3 * cs, rng.randrange(5 * cs)])})
        x['q'] = q
        yield x
    for n, kinds in ((270, (12, 16, 32)), (600, (16,))) if tier == 'quick' else ((260, (12, 16, 32)), (530, (12, 16, 32)), (1100, (12, 32))):      # long chains
        for kind in kinds:
            count = {12: 3400, 16: 20000, 32: 70000}[kind]
            fs = -(-(count + 2) * 4 // 512)
            x = {'bps': 512, 'spc': 1, 'rsvd': 2, 'nf': 2, 'root': 0 if kind == 32 else 16, 't16': 0, 't32': 0, 't64': 0, 'bsig': 0x29, 'f16': 0 if kind == 32 else fs, 'f32': fs if kind == 32 else 0, 'act': 0, 'mir': False, 'ver': 0, 'mark': True, 'jmp': 1, 'vs': -1}
            x['t32'] = x['len'] = 2 + 2 * fs + (0 if kind == 32 else 1) + count
            run = list(range(5, 5 + n)) if rng.random() < 0.5 else rng.sample(range(2, count + 2), n)
            x['fat'] = [[c, v] for c, v in zip(run, run[1:] + [{12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[kind] if rng.random() < 0.6 else run[3]])]
            x['q'] = [{'k': 'chain', 'c': run[0], 'n': 0}, {'k': 'read', 'c': run[n // 2], 'n': -1}]
            yield x


GENERATORS = {'FatVolume': gen}
