"""C22: walking a FAT volume."""
import random
import struct
from dfir_ntfs.addons import FAT
import fat
from props import c20, c21

ID = 'C22'
FAT.WARN_FUNC = lambda *a: None


def runs(tier):
    def job(family, **kw):
        return dict(module='FatWalk', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=4, heap='6g', **kw)
    return [job('graph'), job('extra', cases=False), job('root32', cases=False)]


def short_name(n):
    if n in ('.', '..'):
        return n.encode().ljust(11)
    a, _, b = n.partition('.')
    return a.encode().ljust(8) + b.encode().ljust(3)


def slots(ents, rng, size=512, after=None):
    """The slots of a cluster or of the root."""
    out = []
    for i, e in enumerate(ents):
        k = e['k']
        if k == 'x':
            out.append(b'x' * 32)
        elif k == 'null':
            out.append(b'\0' * 32)
        elif k in ('lfn', 'orph'):
            nxt = ents[i + 1] if i + 1 < len(ents) else after
            nm = short_name(nxt['n']) if k == 'lfn' else None
            cs = c21.checksum(nm) if nm else rng.randrange(256)
            text = [ord(c) for c in (nxt['l'] if k == 'lfn' else e['n'])]
            out.append(bytes(c21.long_slots(text, cs, rng, 0xE5 if k == 'lfn' and nxt['d'] else None)[0]))
        else:
            nm = bytearray(short_name(e['n'][1:] if False else e['n']))
            if e['d']:
                nm = bytearray(b'\xE5' + nm[1:])
            attr = {'file': rng.choice([0, 0x20, 1, 0x27]), 'dir': rng.choice([0x10, 0x12, 0x30]), 'dot': 0x10, 'dotdot': 0x10, 'vol': 8}[k]
            out.append(bytes(nm) + bytes([attr, 0]) + struct.pack('<BHHHHHHHL', 0, 0, 0x21, 0x21, e['c'] >> 16, 0, 0x21, e['c'] & 0xFFFF, 0))
    return b''.join(out).ljust(size, b'\0')


def execute(inp):
    rng = random.Random(repr(inp))
    count = inp['last'] - 1
    kind, sp = inp['t'], inp['sp']
    cs = 512 * sp
    per = {12: 1.5, 16: 2, 32: 4}[kind]
    fs = int((count + 2) * per) // 512 + 1
    rsvd = rng.choice([1, 2])
    nf = rng.choice([1, 2])
    x = {'bps': 512, 'spc': sp, 'rsvd': rsvd, 'nf': nf, 'root': 0 if kind == 32 else 16 * inp['rs'], 't16': 0, 't32': rsvd + nf * fs + (0 if kind == 32 else inp['rs']) + count * sp, 't64': 0, 'bsig': 0x29, 'f16': 0 if kind == 32 else fs, 'f32': fs if kind == 32 else 0, 'act': 0, 'mir': False, 'ver': 0, 'mark': True, 'jmp': 1}
    base = rng.choice([0, 512 * 63])
    f = fat.Sparse(x['t32'] * 512, base)
    g = c20.geometry(x)
    for at in g['fat']:
        f.zero(at, g['fs'])
        fat.put_fat(f, at, kind, [(0, {12: 0xFF8, 16: 0xFFF8, 32: 0xFFFFFF8}[kind]), (1, {12: 0xFFF, 16: 0xFFFF, 32: 0xFFFFFFF}[kind])] + [(c, v) for c, v in inp['fat']], rng)
    f.put(0, fat.boot(x, rng, inp['root']))
    if kind != 32:
        f.put(g['before'] - 512 * inp['rs'], slots(inp['rents'], rng, 512 * inp['rs']))
    held = dict((c, s) for c, s in inp['cl'])
    named = [e['c'] for e in inp['rents']] + [e['c'] for y in held.values() for e in y] + [v for _, v in inp['fat']] + list(held)
    for c in sorted(set(range(2, min(count + 2, 60))) | set(c for y in named for c in (y, y + 1) if 2 <= c < count + 2)):
        f.put(g['before'] + (c - 2) * cs, b'x' * cs)
    link = dict((c, v) for c, v in inp['fat'])
    for c in held:
        f.put(g['before'] + (c - 2) * cs, slots(held[c], rng, cs, (held.get(link.get(c)) or [None])[0]))
    p = FAT.FileSystemParser(f, base)
    if p.fat_type != kind:
        return {'st': 'type'}
    out = []
    try:
        for e in p.walk('ascii', inp['all']):
            if type(e) is FAT.OrphanLongEntry:
                path = e.long_name_partial.split('/')
                out.append({'p': [y for y in path[:-1] if y], 'n': '', 'l': path[-1], 'c': 0, 'd': '', 'dir': False, 'o': True})
                continue
            path = e.short_name.split('/')
            lpath = path if e.long_name is None else e.long_name.split('/')
            if path[:-1] != lpath[:-1] or (path[0] and not path[0].startswith('<Orphan')):
                return {'st': 'path', 'e': repr(e)}
            out.append({'p': [y for y in path[:-1] if y], 'n': path[-1], 'l': '' if e.long_name is None else lpath[-1], 'c': e.first_cluster, 'd': {True: 'yes', False: 'no', None: 'unknown'}[e.is_deleted], 'dir': bool(e.is_directory), 'o': False})
    except (FAT.FileSystemException, ValueError) as x:
        return {'st': 'rejected', 'out': []}
    return {'st': 'ok', 'out': out}


def agree(m, inp, want, got):
    if want['st'] != got['st']:
        return False

    def norm(q, gone):
        r = []
        for e in q:
            e = dict(e)
            e['p'] = list(e['p'])
            r.append(repr(sorted(e.items())))
        return sorted(r)
    return norm(want['out'], True) == norm(got['out'], False)


def big(rng, kind):
    """Deep, wide and long directories."""
    def ent(k, n='', l='', c=0, d=False):
        return {'k': k, 'n': n, 'l': l, 'c': c, 'd': d}
    sp = rng.choice([1, 1, 2, 4])
    rs = 1 if kind == 32 else rng.choice([1, 2, 14])
    last = {12: rng.choice([200, 4085]), 16: rng.choice([4086, 30000, 65525]), 32: rng.choice([300, 70000, 140000])}[kind]
    eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[kind]
    spare = list(range(2, 160)) + [c for c in range(last - 30, last + 1)] + ([c for c in range(65530, 65545)] if last > 66000 else [])
    spare = sorted(set(spare))
    rng.shuffle(spare)
    root = spare.pop() if kind == 32 else 0
    num = [0]
    cl, fatl = [], []
    shape = rng.choice(['deep', 'wide', 'long'])
    depth = {'deep': rng.choice([20, 40, 70, 150]), 'wide': 2, 'long': 2}[shape]
    longdirs = rng.random() < 0.5

    def name(d=False):
        num[0] += 1
        return ('_%d' if d else 'N%d') % num[0]

    def fill(me, parent, isroot, left):
        s = [] if isroot else [ent('dot', '.', '', me), ent('dotdot', '..', '', 0 if parent == root else parent)]
        for _ in range({'deep': rng.choice([0, 1]), 'wide': rng.choice([3, 30]), 'long': rng.choice([20, 150, 400])}[shape]):
            d = rng.random() < 0.15
            l = 'Long %d' % num[0] if rng.random() < 0.3 else ''
            s += [ent('lfn')] * bool(l) + [ent('file', name(d), l, rng.choice([0, 2, 9]), d)]
        subs = {'deep': 1, 'wide': 24 if isroot else rng.choice([0, 1]), 'long': 2}[shape] if left else 0
        for _ in range(subs):
            if len(spare) < 40:
                break
            c = spare.pop()
            l = 'Sub %d' % num[0] if longdirs else ''
            e = [ent('lfn')] * bool(l) + [ent('dir', name(), l, c, False)]
            at = rng.choice([len(s), len(s), 2 if not isroot else 0])
            s[at:at] = e
            build(c, me, left - 1)
        return s

    def build(me, parent, left):
        s = fill(me, parent, me == root and kind == 32, left)
        if kind != 32 and me == 0:
            return s[:16 * rs]
        q, c = [me], me
        while len(q) * 16 * sp < len(s) and len(spare) > 4:
            q.append(spare.pop())
        s = s[:len(q) * 16 * sp]
        if s[-1:] and s[-1]['k'] == 'lfn':
            s.pop()
        for i, c in enumerate(q):
            fatl.append([c, q[i + 1] if i + 1 < len(q) else eoc + rng.choice([0, 7])])
            cl.append([c, s[i * 16 * sp:(i + 1) * 16 * sp]])
        return []
    rents = build(root, 0, depth)
    if rents and rents[-1]['k'] == 'lfn':
        rents.pop()
    return {'t': kind, 'last': last, 'root': root, 'rents': rents, 'cl': cl, 'fat': fatl, 'all': rng.random() < 0.3, 'sp': sp, 'rs': rs}


def gen(rng, tier):
    for i in range(30 if tier == 'quick' else 600):
        x = big(rng, (12, 16, 32)[i % 3])
        yield x
    def ent(k, n='', l='', c=0, d=False):
        return {'k': k, 'n': n, 'l': l, 'c': c, 'd': d}
    for _ in range(1200 if tier == 'quick' else 15000):
        kind = rng.choice([12, 12, 16, 32])
        last = {12: rng.choice([8, 20]), 16: 4086 + rng.randrange(20), 32: rng.choice([8, 30, 200, 70000])}[kind]
        eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[kind]
        n = rng.choice([2, 4, 7]) if last < 9 else rng.choice([2, 5, 10, 16])
        pool = list(range(2, 2 + min(n, last - 1)))
        if rng.random() < 0.3 and last > 20:
            pool[-1] = last
        if last > 66000:
            pool = [c if rng.random() < 0.5 else c + rng.choice([65533, 65536, 65540]) for c in pool]
            pool = list(dict.fromkeys(pool))
        cnt = [0]
        deep = rng.random() < 0.5
        root = rng.choice(pool) if kind == 32 else 0
        dirs = [c for c in pool if c != root and rng.random() < 0.9]
        parents = {}

        def content(me, parent, isroot):
            s = []
            if not isroot and rng.random() < 0.85:
                s = [ent('dot', '.', '', me), ent('dotdot', '..', '', parent)]
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                cnt[0] += 1
                name = 'N%d' % cnt[0]
                y = rng.random()
                d = rng.random() < 0.3
                sn = ('_' + name[1:]) if d else name
                l = 'Long %d' % cnt[0] if rng.random() < 0.3 else ''
                if l:
                    s.append(ent('lfn'))
                if y < 0.4:
                    s.append(ent('file', sn, l, rng.choice([0] + pool), d))
                elif y < 0.92:
                    c = rng.choice([0, 1, last + 1, last + 2]) if rng.random() < 0.06 else rng.choice(pool)
                    if deep and dirs and rng.random() < 0.7:
                        c = dirs.pop(0)
                    s.append(ent('dir', sn, l, c, d))
                else:
                    if l:
                        s.pop()
                    s += [ent('orph', 'Part %d' % cnt[0]), ent('x')] if rng.random() < 0.5 else [ent('vol', 'LABEL')]
                if rng.random() < 0.05:
                    s.append(ent('null'))
            s = s[:16]
            if s and s[-1]['k'] in ('lfn', 'orph'):
                s.pop()
            if rng.random() < 0.3:
                s += [ent('x')] * (16 - len(s))
            return s
        cl, fatl = [], []
        for c in pool:
            if rng.random() < 0.9:
                cl.append([c, content(c, rng.choice([0] + pool), c == root)])
            y = rng.random()
            fatl.append([c, rng.choice([eoc, eoc + 7]) if y < 0.45 else 0 if y < 0.75 else rng.choice(pool) if y < 0.93 else rng.choice([1, eoc - 1, last + 1, eoc - 2])])
        if kind == 32:
            for x in fatl:
                if x[0] == root and x[1] == 0:
                    x[1] = eoc
        x = {'t': kind, 'last': last, 'root': root, 'rents': [] if kind == 32 else content(0, 0, True), 'cl': cl, 'fat': fatl, 'all': rng.random() < 0.3, 'sp': rng.choice([1, 1, 1, 2]), 'rs': 1}
        # A loop of cross-linked directories can be walked along very many paths: keep the inputs small.
        if paths(x, eoc) > 400:
            continue
        yield x


def paths(x, eoc):
    held = dict((c, s) for c, s in x['cl'])
    link = dict((c, v) for c, v in x['fat'])
    todo, n = [], 0

    def chain(c):
        q = []
        while c in held and c not in q and c > 1:
            q.append(c)
            c = link.get(c, 0)
        return q + ([q[0] + 1] if len(q) == 1 else [])
    todo.append((frozenset(), x['rents'], 0))
    if x['t'] == 32:
        todo = [(frozenset([x['root']]), [e for c in chain(x['root']) for e in held.get(c, [])], 0)]
    for c in held:
        todo.append((frozenset([c]), [e for y in chain(c) for e in held.get(y, [])], 0))
    while todo and n <= 400:
        up, s, _ = todo.pop()
        n += 1
        for e in s:
            if e['k'] == 'dir' and e['c'] in held and e['c'] not in up:
                todo.append((up | {e['c']}, [z for y in chain(e['c']) for z in held.get(y, [])], 0))
    return n


GENERATORS = {'FatWalk': gen}
