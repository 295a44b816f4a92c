"""C25: walking an exFAT volume."""
import random
import struct
from dfir_ntfs.addons import exFAT
import fat
import exfat

ID = 'C25'
STAMPS = {0: 0, 1: 0x50214000, 2: 0x52214000, 3: 0x54214001}


def runs(tier):
    def job(family, **kw):
        return dict(module='ExfatWalk', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=3, heap='4g', **kw)
    return [job('graph'), job('sizes', cases=False), job('orphans', cases=False), job('edge', cases=False)]


def content(ents, rng, isroot, bm, size, maplen, carry):
    out = [exfat.bitmap_entry(0, bm, maplen, rng)] if isroot else []
    for e in ents:
        k = e['k']
        if k == 'cont':
            out.append(carry.pop(e['n']))
        elif k == 'x':
            out.append(b'!' * 32)
        elif k in ('h5', 'h4'):   # the beginning of a deleted set that does not go on
            out.append(bytes([0x05, 2]) + b'\x20' * 30 if k == 'h5' else bytes([0x40, 0, 0, 3]) + bytes(28))
        elif k == 'end':
            out.append(b'\0' * 32)
        elif k == 'stop':
            out.append(b'\x82' + b'\1' * 31 if rng.random() < 0.5 else b'\x80' + b'\1' * 31)
        elif k == 'label':
            out.append(b'\x83\x03' + e['n'].encode('utf-16le').ljust(30, b'\0'))
        elif k == 'lost':
            out.append(b'\x41\0' + e['n'].encode('utf-16le').ljust(30, b'\0'))
        else:
            out.append(exfat.file_set(e['n'], 0x10 if k == 'dir' else 0x20, e['c'], e['s'], e['nf'], e['d'], STAMPS[e['mt']]))
    b = b''.join(out)
    if len(b) > size:
        if len(b) - len(out[-1]) >= size:
            raise AssertionError('too many entries')
        carry[ents[-1]['n']] = b[size:]
        b = b[:size]
    return b + b'!' * (size - len(b))


def execute(inp):
    rng = random.Random(repr(inp))
    base = rng.choice([0, 512 * 63])
    sp, count = inp['sp'], inp['last'] - 1
    cs = 512 * sp
    fl = max(16, -(-(count + 2) * 4 // 512))
    heap = max(64, 24 + fl)
    total = max(2048, heap + count * sp)
    f = fat.Sparse(total * 512, base)
    r = {'mark': '', 'flip': -1, 'ss': 9, 'sc': sp.bit_length() - 1, 'vlen': total, 'fo': 24, 'fl': fl, 'heap': heap, 'count': count, 'root': inp['root'], 'major': 1, 'minor': 0, 'nf': 1, 'act': 0}
    none = dict(r, mark='none')
    for at, b in exfat.regions([r, none, none], rng):
        f.put(at, b)
    maplen = (count + 7) // 8
    maps = list(range(6, 6 + -(-maplen // cs)))
    f.zero(24 * 512, fl * 512)
    exfat.put_fat(f, 24 * 512, [(c, d) for c, d in zip(maps, maps[1:] + [-1])] + [(c, v) for c, v in inp['fat']], fl * 512)
    held = dict((c, s) for c, s in inp['cl'])
    blank = [c for y in held.values() for e in y if e['k'] == 'dir' for c in range(e['c'], e['c'] + min(9, -(-e['s'] // cs) + 1))] + [v for _, v in inp['fat']]
    carry = {}
    for c in list(held) + sorted(set(c for c in list(range(2, 40)) + list(range(inp['last'] - 11, inp['last'] + 1)) + blank if 2 <= c <= inp['last']) - set(held)):
        f.put((heap + (c - 2) * sp) * 512, content(held.get(c, []), rng, c == inp['root'], 6, cs, maplen, carry))
    bits = bytearray(cs * len(maps))
    for c in inp['used']:
        bits[(c - 2) // 8] |= 1 << ((c - 2) % 8)
    f.put((heap + 4 * sp) * 512, bits)
    p = exFAT.FileSystemParser(f, base, None if inp['vs'] < 0 else inp['vs'] * 512)
    out = []
    for e in p.walk(inp['all']):
        if type(e) is exFAT.VolumeLabelEntry:
            out.append({'p': [], 'n': e.volume_label, 'c': 0, 'd': False, 'dir': False, 'k': 'label'})
            continue
        name = e.name_partial if type(e) is exFAT.OrphanEntry else e.name
        path = name.split('/')
        if path[0] and not path[0].startswith('<Orphan'):
            return {'st': 'path', 'e': repr(e)}
        x = {'p': [y for y in path[:-1] if y], 'n': path[-1]}
        if type(e) is exFAT.OrphanEntry:
            x.update({'c': 0, 'd': False, 'dir': False, 'k': 'lost'})
        else:
            c = e.first_cluster
            x.update({'c': c if c < 1 << 31 else c - (1 << 32), 'd': e.is_deleted, 'dir': e.is_directory, 'k': 'entry'})
        out.append(x)
    return {'st': 'ok', 'out': out}


def agree(m, inp, want, got):
    if want['st'] != got['st']:
        return False

    def norm(q):
        return sorted(repr(sorted(e.items())) for e in q)
    return norm(want['out']) == norm(got['out'])


def big(rng):
    """Deep, wide and long directories, large clusters and volumes."""
    def ent(k, n='', c=0, s=0, nf=False, d=False, mt=0):
        return {'k': k, 'n': n, 'c': c, 's': s, 'nf': nf, 'd': d, 'mt': mt}
    sp = rng.choice([1, 1, 2, 8])
    cs = 512 * sp
    last = rng.choice([1901, 5000, 70000] if sp < 8 else [1901, 70000, 300000])
    maps = -(-((last + 6) // 8) // cs)
    first = 6 + maps
    spare = sorted(set(list(range(first, first + 150)) + list(range(last - 30, last + 1)) + (list(range(65530, 65545)) if last > 66000 else [])))
    root = 5
    num = [0]
    cl, fatl, used = [], [], [5] + list(range(6, first))
    shape = rng.choice(['deep', 'wide', 'long'])
    depth = {'deep': rng.choice([20, 40, 70]), 'wide': 2, 'long': 2}[shape]

    def take(k, run):
        q = None
        if run:
            for i in range(len(spare) - k):
                if spare[i + k - 1] == spare[i] + k - 1:
                    q = spare[i:i + k]
                    break
        run = q is not None
        q = q or rng.sample(spare, k)
        for c in q:
            spare.remove(c)
        return q, run

    def directory(isroot, left):
        """-> (clusters, consecutive), once they are written."""
        n = {'deep': rng.choice([0, 1]), 'wide': rng.choice([3, 20]), 'long': rng.choice([10, 40, 100])}[shape]
        subs = {'deep': 1, 'wide': 12 if isroot else rng.choice([0, 1]), 'long': 2}[shape] if left else 0
        plan = ['file'] * n + ['dir'] * subs
        rng.shuffle(plan)
        s = []
        for k in plan:
            num[0] += 1
            name = 'n%d' % num[0] + rng.choice(['', '', 'x' * 11, 'y' * 40, 'z' * 200])
            if k == 'file':
                s.append(ent('file', name, rng.choice([0, first]), 5, rng.random() < 0.5, rng.random() < 0.15, 1))
            elif len(spare) > 40:
                q, nf = directory(False, left - 1)
                s.append(ent('dir', name, q[0], cs * len(q), nf, False, 1))
        per = [[]]
        room = cs - (32 if isroot else 0)
        for e in s:
            need = 32 * (2 + -(-len(e['n']) // 15))
            if room == 0 and len(spare) > 30:
                per.append([])
                room = cs
            if need > room:
                if len(spare) < 30 or need - room > cs:
                    continue
                straddle = room > 0
                per[-1].append(e) if straddle else None
                per.append([ent('cont', e['n'])] if straddle else [e])
                room = cs - (need - room if straddle else need)
            else:
                per[-1].append(e)
                room -= need
        q, nf = take(len(per) - isroot, not isroot and rng.random() < 0.4)
        if isroot:
            q = [root] + q
        for i, c in enumerate(q):
            cl.append([c, per[i]])
            if not nf:
                fatl.append([c, q[i + 1] if i + 1 < len(q) else -1])
            used.append(c)
        return q, nf
    directory(True, depth)
    free = set()
    for _, y in cl:
        for e in y:
            if e['k'] == 'dir' and rng.random() < 0.12:   # deleted, and its first cluster in use or not
                e['d'] = True
                if rng.random() < 0.5:
                    free.add(e['c'])
    used = [c for c in used if c not in free]
    return {'last': last, 'root': root, 'cl': cl, 'fat': fatl, 'used': used, 'all': rng.random() < 0.3, 'vs': -1, 'sp': sp}


def gen(rng, tier):
    for _ in range(25 if tier == 'quick' else 500):
        yield big(rng)
    def ent(k, n='', c=0, s=0, nf=False, d=False, mt=0):
        return {'k': k, 'n': n, 'c': c, 's': s, 'nf': nf, 'd': d, 'mt': mt}
    last = 1901
    for _ in range(1200 if tier == 'quick' else 15000):
        n = rng.choice([3, 6, 10, 16])
        pool = [c for c in range(2, n + 3) if c not in (5, 6)]
        if rng.random() < 0.2:
            pool[-1] = last
        cnt = [0]
        dirs = pool[:]
        deep = rng.random() < 0.5
        absent = rng.random() < 0.5

        def entries(isroot):
            s, room = [], 16 - (1 if isroot else 0)
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                if room < 4:
                    break
                cnt[0] += 1
                name = 'n%d' % cnt[0]
                y = rng.random()
                if y < 0.3:
                    s.append(ent('file', name, rng.choice([0] + pool), 5, rng.random() < 0.5, rng.random() < 0.4, 1))
                    room -= 3
                elif y < 0.88:
                    c = rng.choice([0, 1, last + 1, -9, -2]) if rng.random() < 0.06 else rng.choice(pool + [5])
                    if deep and dirs and rng.random() < 0.7:
                        c = dirs.pop(0)
                    d = rng.random() < 0.35
                    mt = (rng.choice([0, 1, 2]) if absent else rng.choice([1, 2, 3])) if isroot else 0 if absent else 1
                    s.append(ent('dir', name, c, rng.choice([512, 512, 512, 1024, 1536, 0, 700]), rng.random() < 0.4, d, mt))
                    room -= 3
                elif y < 0.93:
                    s.append(ent('lost', name))
                    room -= 1
                    s.append(ent('x'))
                    room -= 1
                elif y < 0.97 or isroot:
                    s.append(ent('x'))
                    room -= 1
                else:
                    s.append(ent(rng.choice(['end', 'stop', 'label']), ''))
                    room -= 1
            if rng.random() < 0.06 and room > 2 and not isroot:
                s[0:0] = [ent('h5'), ent('h4'), ent('x')]
            for e in s:
                if e['k'] == 'label':
                    e['n'] = 'VOL'
            return s
        cl, fatl = [[5, entries(True)]], [[5, rng.choice([-1, -1, -1, 0, 1, -9, 5])]]
        if rng.random() < 0.3:
            cl[0][1].insert(0, ent('label', 'VOL'))
            if sum(3 if e['k'] in ('file', 'dir') else 1 for e in cl[0][1]) > 15:
                cl[0][1].pop()
        for c in pool:
            if rng.random() < 0.92:
                cl.append([c, entries(False)])
            y = rng.random()
            fatl.append([c, -1 if y < 0.45 else 0 if y < 0.7 else rng.choice(pool) if y < 0.93 else rng.choice([1, -9, last + 1, -2])])
        x = {'last': last, 'root': 5, 'cl': cl, 'fat': fatl, 'used': [5, 6] + [c for c in pool if rng.random() < 0.5], 'all': rng.random() < 0.25, 'vs': rng.choice([-1, -1, 2048]), 'sp': 1}
        if paths(x) > 300:
            continue
        yield x


def paths(x):
    held = dict((c, s) for c, s in x['cl'])
    link = dict((c, v) for c, v in x['fat'])

    def clusters(e):
        if e['nf']:
            return [c for c in range(e['c'], e['c'] + -(-e['s'] // 512)) if c in held]
        q, c = [], e['c']
        while c in held and c not in q:
            q.append(c)
            c = link.get(c, 0)
        return q
    todo = [(frozenset([5]), [5])] + [(frozenset(), [c]) for c in held if c != 5]
    n = 0
    while todo and n <= 300:
        up, q = todo.pop()
        n += 1
        for c in q:
            for e in held[c]:
                if e['k'] == 'dir' and e['c'] in held and e['c'] not in up:
                    todo.append((up | {e['c']}, clusters(e)))
    return n


GENERATORS = {'ExfatWalk': gen}
