"""C23: exFAT geometry, chains, bitmaps and content."""
import random
import struct
from dfir_ntfs.addons import exFAT
import fat
import exfat

ID = 'C23'


def runs(tier):
    def job(family, **kw):
        return dict(module='ExfatVolume', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=3, **kw)
    return [job('regions'), job('fields', cases=False), job('chains', cases=False), job('sizes', cases=False), job('bitmap', cases=False), job('wide', cases=False)]


def execute(inp):
    rng = random.Random(repr(inp))
    base = rng.choice([0, 512, 1 << 20])
    f = fat.Sparse(inp['len'] * 512, base)
    for at, b in exfat.regions(inp['regions'], rng):
        f.put(at, b)
    special = set()
    for i, r in enumerate(inp['regions']):
        s, cs = 1 << r['ss'], 1 << (r['ss'] + r['sc'])
        if r['mark'] == 'none' or (i and r['ss'] != (0, 9, 12)[i]) or not 9 <= r['ss'] <= 12 or r['sc'] > 25 - r['ss'] or r['fo'] < 24 or r['root'] < 2:
            continue
        for k in (0, 1):
            at = (r['fo'] + k * r['fl']) * s
            if k == r['act'] or (k == 1 and r['nf'] == 2):
                f.zero(at, min(r['fl'] * s, 1 << 16))
                exfat.put_fat(f, at, inp['fat'][k], r['fl'] * s)
                asked = set(x['c'] for x in inp['q']) | set(v for _, v in inp['fat'][k])
                exfat.put_fat(f, at, [(c, 0) for c in asked - set(c for c, _ in inp['fat'][k])], r['fl'] * s)
        entries = b''
        for e in inp['root']:
            if e['k'] == 'bm':
                entries += exfat.bitmap_entry(e['id'], e['c'], (r['count'] + 7) // 8, rng)
            elif e['k'] == 'label':
                entries += b'\x83\x03' + 'abc'.encode('utf-16le') + b'\0' * 24
            elif e['k'] == 'end':
                entries += b'\0' * 32
            else:
                entries += rng.choice([b'\x82' + b'\1' * 31, b'\x03' + b'\2' * 31, exfat.file_set('Name'), b'\x01' + b'\3' * 31])
        if len(entries) < cs and entries:
            at = r['heap'] * s + (r['root'] - 2) * cs
            f.put(at, entries.ljust(min(cs, 65536), b'\0'))
            special.add(at)
        elif not entries:
            at = r['heap'] * s + (r['root'] - 2) * cs
            f.put(at, b'\0' * cs)
            special.add(at)
        for c, bits in inp['bits']:
            b = bytearray(cs)
            for k in bits:
                b[k // 8] |= 1 << (k % 8)
            at = r['heap'] * s + (c - 2) * cs
            if c != r['root']:
                f.put(at, b)
                special.add(at)
    f.length = inp['len'] * 512
    try:
        p = exFAT.FileSystemParser(f, base, None if inp['vs'] < 0 else inp['vs'] * 512)
    except (exFAT.FileSystemException, ValueError, NotImplementedError):
        return {'st': 'rejected', 'backup': False, 'ans': []}
    ans = []
    cs, heap = p.cluster_size, p.data_area_offset
    for q in inp['q']:
        a = {'st': 'ok', 'cl': [], 'n': 0}
        c = q['c'] & 0xFFFFFFFF
        try:
            if q['k'] == 'alloc':
                a['st'] = {True: 'yes', False: 'no', None: 'unknown'}[p.bm.is_allocated(c)]
            elif q['k'] == 'chain':
                a['cl'] = [0 if x is None else x if x < 1 << 31 else x - (1 << 32) for x in p.fat.chain(c)]
            else:
                d = p.read_chain(c, None if q['n'] < 0 else q['n'], q['nf'])
                a['n'] = len(d)
                for o in range(0, len(d), cs):
                    piece = d[o:o + cs]
                    if len(piece) < 8 or any(piece == f.get(x, len(piece)) for x in special):
                        a['cl'].append(-7)      # too short, or not unlike others, to tell which cluster it is from
                        continue
                    if not piece.strip(b'\0'):
                        a['cl'].append(0)
                        continue
                    s = int.from_bytes(piece[:8], 'little') - 1
                    x, r = divmod(s * 512 - heap, cs)
                    a['cl'].append(x + 2 if r == 0 and 0 <= s < 1 << 40 and piece == f.get(s * 512, len(piece)) else -1)
        except (exFAT.FileSystemException, ValueError):
            a = {'st': 'rejected', 'cl': [], 'n': 0}
        ans.append(a)
    return {'st': 'ok', 'backup': p.backup_used, 'ans': ans}


def agree(m, inp, want, got):
    if want['st'] != got['st'] or want['backup'] != got['backup'] or len(want['ans']) != len(got['ans']):
        return False
    for q, a, b in zip(inp['q'], want['ans'], got['ans']):
        if a['st'] != b['st'] or a['n'] != b['n'] or len(a['cl']) != len(b['cl']) or any(u != v and v != -7 for u, v in zip(a['cl'], b['cl'])):
            return False
    return True


NONE = {'mark': 'none', 'flip': -1, 'ss': 9, 'sc': 0, 'vlen': 2048, 'fo': 24, 'fl': 16, 'heap': 64, 'count': 1900, 'root': 5, 'major': 1, 'minor': 0, 'nf': 1, 'act': 0}


def gen(rng, tier):
    for _ in range(1000 if tier == 'quick' else 15000):
        ss = rng.choice([9, 9, 10, 11, 12])
        sc = rng.choice([0, 0, 1, 3, 6])
        s, spc = 1 << ss, 1 << sc
        count = rng.choice([300, 1000, 3000, 5000, 40000, 70000, 1200000, 17000000])
        if rng.random() < 0.02:
            sc = rng.choice([11, 25 - ss])
            spc = 1 << sc
        if count * spc * s < (1 << 20) or count * spc * s > 1 << 39 or (count > 40000 and rng.random() < 0.5):
            continue
        fl = -(-(count + 2) * 4 // s) + rng.choice([0, 0, 1, 3])
        nf = rng.choice([1, 1, 2])
        fo = rng.choice([24, 30, 128])
        heap = fo + fl * nf + rng.choice([0, 1, 50])
        if heap > count * spc:
            continue
        r = {'mark': '', 'flip': -1, 'ss': ss, 'sc': sc, 'vlen': heap + count * spc + rng.choice([0, 0, 1, 7, -1]), 'fo': fo, 'fl': fl, 'heap': heap, 'count': count, 'root': 0, 'major': 1, 'minor': rng.choice([0, 0, 7]), 'nf': nf, 'act': rng.choice([0, 1]) if nf == 2 else 0}
        top = count + 1
        pool = list(dict.fromkeys(c for c in [top, top - 1] + [rng.randrange(2, min(top, 5000)) for _ in range(10)]))
        rng.shuffle(pool)
        need = -(-count // (8 * s * spc))
        root = pool.pop()
        r['root'] = root
        if need > 3:
            pool += list(set(rng.randrange(2, top) for _ in range(2 * min(need, 20))) - set(pool + [root]))
            rng.shuffle(pool)
        bmc = [[pool.pop() for _ in range(min(need, 20 if len(pool) > 45 else 3))] for _ in (0, 1)]
        if len(pool) < 3:
            continue
        tables = []
        for k in (0, 1):
            t = [[root, -1]]
            for m in bmc:
                t += [[c, d] for c, d in zip(m, m[1:] + [-1])]
            if rng.random() < 0.15:
                t[rng.randrange(len(t))][1] = rng.choice([0, 1, -9, -2, top + 1, rng.choice(pool)])
            rest = pool[:]
            rng.shuffle(rest)
            for j, c in enumerate(rest):
                t.append([c, rest[j + 1] if j + 1 < len(rest) and rng.random() < 0.85 else rng.choice([0, 1, -1, -1, -9, -2, top + 1, rng.choice(rest)])])
            tables.append(t)
        bits = [[c, sorted(rng.sample(range(min(8 * s * spc, count - j * 8 * s * spc)), 20))] for m in bmc for j, c in enumerate(m) if count - j * 8 * s * spc > 30]
        order = [0, 1] if nf == 2 or rng.random() < 0.3 else [0]
        rng.shuffle(order)
        rootd = []
        for k in order:
            if rng.random() < 0.3:
                rootd.append({'k': rng.choice(['other', 'label']), 'id': 0, 'c': 0})
            rootd.append({'k': 'bm', 'id': k, 'c': bmc[k][0]})
        if rng.random() < 0.04:
            rootd.insert(rng.randrange(len(rootd) + 1), {'k': 'end', 'id': 0, 'c': 0})
        three = [r, dict(NONE), dict(NONE)]
        if ss in (9, 12) and rng.random() < 0.7:
            three[1 if ss == 9 else 2] = dict(r)
            if rng.random() < 0.7:
                three[0] = dict(r, flip=rng.randrange(12 * s))
        for x in three:
            if rng.random() < 0.1:
                x['flip'] = rng.choice([106, 107, 112, 12 * s - 1, 11 * s + 12, 11 * s + 11, 11 * s, 11 * s - 1, rng.randrange(11 * s)])
                if x['flip'] >= 12 * s or x['ss'] != ss:
                    x['flip'] = -1
        if any(x['flip'] == 108 for x in three):
            continue
        total = r['vlen'] * s // 512
        x = {'regions': three, 'vs': rng.choice([-1, -1, total, total - s // 512, total + 8]), 'len': rng.choice([total, total, total, max(200, total - rng.randrange(1, 400))]), 'fat': tables, 'root': rootd, 'bits': bits}
        q = []
        cs = s * spc
        for _ in range(6):
            c = rng.choice(pool[:2] + [rng.choice(pool), 0, 1, top, top + 1, -9, rng.randrange(2, top + 3)])
            k = rng.choice(['chain', 'read', 'read', 'alloc', 'alloc'])
            if k == 'alloc' and rng.random() < 0.7 and bits:
                y = rng.choice(bits)
                j = [m.index(y[0]) for m in bmc if y[0] in m][0]
                c = rng.choice(y[1]) + j * 8 * cs + 2 + rng.choice([0, 0, 1, -1])
            q.append({'k': k, 'c': c, 'n': rng.choice([-1, 0, 1, cs, cs + 1, 2 * cs - 1, 3 * cs, rng.randrange(5 * cs)]), 'nf': k == 'read' and rng.random() < 0.5})
        x['q'] = q
        yield x


GENERATORS = {'ExfatVolume': gen}
