"""C34: the report made of a FAT or exFAT volume."""
import ast
import random
import re
import struct
from dfir_ntfs.addons import FAT
import cli
import exfat
import fat
from props import c20, c21

ID = 'C34'
FAT.WARN_FUNC = lambda *a: None
NOZONE = 9999
HEAD = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
HEADX = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']
ENCRYPTED = {False: 0, True: 1}


def runs(tier):
    return [dict(module='FatReport', constants={'Scope': '"%s"' % tier}, workers=4, heap='6g')]


def moment(i):
    return 1980 + (i * 7) % 128, i % 12 + 1, i % 28 + 1, i % 24, (i * 7) % 60, (i * 2) % 60, (i * 37) % 200


def date_bits(i):
    if i == 0:
        return 0
    y, mo, d = moment(i)[:3]
    return (y - 1980) << 9 | mo << 5 | d


def time_bits(i):
    if i == 0:
        return 0
    h, m, s = moment(i)[3:6]
    return h << 11 | m << 5 | s // 2


def cents(i):
    return moment(i)[6] if i else 0


def texts(i, kind, ex):
    if i == 0:
        return 'N/A'
    y, mo, d, h, m, s, c = moment(i)
    if kind == 'a' and not ex:
        return '%04d-%02d-%02d' % (y, mo, d)
    if kind == 'a' or (kind == 'm' and not ex):
        c = 0
    t = h * 3600 + m * 60 + s + c // 100
    assert t < 86400
    return '%04d-%02d-%02d %02d:%02d:%02d.%06d' % (y, mo, d, t // 3600, t // 60 % 60, t % 60, c % 100 * 10000)


STAMPS = {(k, ex): dict([(texts(i, k, ex), i) for i in range(128)] + [('?', -1)]) for k in 'mac' for ex in (False, True)}
SIZES = {False: {0: 0, 1: 5, 2: 0xFFFFFFFF, 3: 4096, 4: 0x80000000}, True: {0: 0, 1: 5, 2: 1 << 40, 3: 4096, 4: 0x80000000, 9: 512}}


def padded(b, n):
    return bytes(b).ljust(n)


def fat_slots(inp, n, first, rng):
    out = []
    kind = inp['fs']

    def entry(nm, attr, nt, t, c, size):
        return bytes(nm) + bytes([attr, nt]) + struct.pack('<BHHHHHHHL', cents(t[2]), time_bits(t[2]), date_bits(t[2]), date_bits(t[1]), c >> 16 if kind == 32 else rng.choice([0, 7]), time_bits(t[0]), date_bits(t[0]), c & 0xFFFF, size)
    if n:
        t = inp['items'][n - 1]['t']
        t = [t[1], t[2], t[0]]
        up = inp['items'][n - 1]['up']
        out.append(entry(b'.'.ljust(11), 0x10, 0, t, first[n], 0))
        out.append(entry(b'..'.ljust(11), 0x10, 0, t, first[up] if up else 0, 0))
    for i, x in enumerate(inp['items'], 1):
        if x['up'] != n:
            continue
        if x['k'] == 'null':
            out.append(b'\0' * 32)
            continue
        if x['k'] == 'part':
            out += [bytes(s) for s in c21.long_slots(x['ln'], rng.randrange(256), rng)] + [b'x' * 32]
            continue
        nm = padded(x['nm'], 11) if x['k'] == 'label' else padded(x['nm'], 8) + padded(x['ext'], 3)
        if x['ln']:
            out += [bytes(s) for s in c21.long_slots(x['ln'], c21.checksum(nm), rng, 0xE5 if x['d'] else None)]
        if x['d']:
            nm = b'\xE5' + nm[1:]
        attr = {'file': rng.choice([0, 0x20, 1, 0x27]), 'dir': rng.choice([0x10, 0x12, 0x30]), 'label': rng.choice([8, 0x28])}[x['k']]
        nt = (8 if x['lc'][0] else 0) | (16 if x['lc'][1] else 0) | (1 if x['enc'] else 0)
        out.append(entry(nm, attr, nt, x['t'], first[i] if x['k'] == 'dir' else 0, SIZES[False][x['size']]))
    return b''.join(out)


def fat_image(inp, rng):
    kind = inp['fs']
    count = 4090 if kind == 16 else 120
    per = {12: 1.5, 16: 2, 32: 4}[kind]
    fs = int((count + 2) * per) // 512 + 1
    rsvd, nf, spc = rng.choice([1, 2]), rng.choice([1, 2]), 1 if kind == 16 else 4
    x = {'bps': 512, 'spc': spc, 'rsvd': rsvd, 'nf': nf, 'root': 0 if kind == 32 else 64, 't16': 0, 't32': rsvd + nf * fs + (0 if kind == 32 else 4) + count * spc, 't64': 0, 'bsig': 0x29, 'f16': 0 if kind == 32 else fs, 'f32': fs if kind == 32 else 0, 'act': 0, 'mir': False, 'ver': 0, 'mark': True, 'jmp': 1}
    f = fat.Sparse(x['t32'] * 512)
    g = c20.geometry(x)
    eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[kind]
    places = list(range(6, 110, 2))
    rng.shuffle(places)
    first = {0: places.pop()}
    for i, it in enumerate(inp['items'], 1):
        if it['k'] == 'dir':
            first[i] = places.pop()
    els = [(0, eoc), (1, eoc + 7)] + [(c, eoc) for c in range(3, 115, 2)]
    for i, c in first.items():
        els.append((c, 0 if i and inp['items'][i - 1]['d'] else eoc))
    for at in g['fat']:
        f.zero(at, g['fs'])
        fat.put_fat(f, at, kind, els, rng)
    f.put(0, fat.boot(x, rng, first[0]))
    size = spc * 512
    for i, c in first.items():
        b = fat_slots(inp, i, first, rng)
        if i == 0 and kind != 32:
            f.put(g['before'] - 2048, b.ljust(2048, b'\0'))
            continue
        if len(b) > size:
            raise AssertionError('too many entries')
        f.put(g['before'] + (c - 2) * size, b.ljust(size, b'\0'))
    return f


def exfat_image(inp, rng):
    f = fat.Sparse(2048 * 512)
    last = 400
    first = {0: 5}
    places = list(range(8, 100, 2))
    rng.shuffle(places)
    for i, it in enumerate(inp['items'], 1):
        if it['k'] == 'dir':
            first[i] = places.pop()
    r = {'mark': '', 'flip': -1, 'ss': 9, 'sc': 2, 'vlen': 2048, 'fo': 24, 'fl': 16, 'heap': 64, 'count': last - 1, 'root': 5, 'major': 1, 'minor': 0, 'nf': 1, 'act': 0}
    none = dict(r, mark='none')
    for at, b in exfat.regions([r, none, none], rng):
        f.put(at, b)
    f.zero(24 * 512, 16 * 512)
    used = [5, 6] + [c for i, c in first.items() if i and not inp['items'][i - 1]['d']]
    exfat.put_fat(f, 24 * 512, [(6, -1)] + [(c, -1) for c in first.values()], 16 * 512)
    bits = bytearray(512)
    for c in used:
        bits[(c - 2) // 8] |= 1 << ((c - 2) % 8)
    f.put((64 + 4 * 4) * 512, bits)
    for n, at in first.items():
        out = [exfat.bitmap_entry(0, 6, 50, rng)] if n == 0 else []
        for i, x in enumerate(inp['items'], 1):
            if x['up'] != n:
                continue
            name = bytes(b for u in x['ln'] for b in (u & 255, u >> 8)).decode('utf-16le')
            if x['k'] == 'label':
                out.append(b'\x83' + bytes([len(x['ln'])]) + name.encode('utf-16le').ljust(30, b'\0'))
            elif x['k'] == 'part':
                out.append(b'\x41\0' + name.encode('utf-16le').ljust(30, b'\0') + b'!' * 32)
            else:
                t = x['t']

                def both(k):
                    return date_bits(k) << 16 | time_bits(k)

                def zone(z):
                    return rng.randrange(128) if z == NOZONE else 0x80 | (z // 15) & 0x7F
                z = x['tz']
                times = (both(t[2]), both(t[0]), both(t[1]), cents(t[2]), cents(t[0]), zone(z[2]), zone(z[0]), zone(z[1]))
                d = x['k'] == 'dir'
                out.append(exfat.file_set(name, 0x10 if d else 0x20, first[i] if d else 0, 512 * 4 if d else SIZES[True][x['size']], d and x['d'], x['d'], times=times, flags=FLAG if x['enc'] else 0))
        b = b''.join(out)
        if len(b) > 2048:
            raise AssertionError('too many entries')
        f.put((64 + (at - 2) * 4) * 512, b.ljust(2048, b'\0'))
    return f


FLAG = 0x8000
SIZES[True][9] = 2048


def units(s):
    b = s.encode('utf-16le', 'surrogatepass')
    return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]


def zone_of(s):
    if s == '?':
        return NOZONE
    if s == '0':
        return 0
    if not re.fullmatch(r'[+-][1-9][0-9]*', s):
        raise ValueError('zone ' + s)
    return int(s)


def execute(inp):
    rng = random.Random(repr(inp))
    ex = inp['fs'] == 64
    f = exfat_image(inp, rng) if ex else fat_image(inp, rng)
    base = rng.choice([0, 512, 512 * 63])
    img = b'\xEE' * base + f.get(0, f.length)
    rows = cli.table(cli.run('fat_parser', ['@img', str(base), '@out'], {'img': img}, 'out'))
    if not rows or rows[0] != (HEADX if ex else HEAD):
        return {'st': 'head', 'row': rows[:1]}
    sizes = dict([(str(v), k) for k, v in SIZES[ex].items()] + [('?', -1)])
    out = []
    for r in rows[1:]:
        if len(r) != 9:
            return {'st': 'columns', 'row': r}
        try:
            path, tag = r[2], ''
            if path.endswith(' (Volume Label)'):
                path, tag = path[:-15], 'label'
            elif path.endswith(' (Partial Name)'):
                path, tag = path[:-15], 'part'
            if ex and tag == 'label':
                p = [path]
            else:
                if not path.startswith('/'):
                    return {'st': 'path', 'row': r}
                p = path.split('/')[1:]
            x = {'tag': tag, 'del': r[0], 'dir': r[1], 'path': [units(c) for c in p], 't': [STAMPS[k, ex][v] for k, v in zip('mac', r[3:6])]}
            if ex:
                x.update({'tz': [zone_of(z) for z in r[6].split('/')], 'size': sizes[r[7]], 'enc': r[8], 'sn': []})
            else:
                x.update({'tz': [], 'size': sizes[r[6]], 'enc': r[7], 'sn': [-1] if r[8] == '?' else list(ast.literal_eval(r[8]))})
        except (KeyError, ValueError, SyntaxError) as e:
            return {'st': 'row', 'row': r, 'e': repr(e)}
        out.append(x)
    return {'st': 'ok', 'rows': out}


def agree(m, inp, want, got):
    if want['st'] != got['st']:
        return False

    def norm(q):
        return sorted(repr(sorted(e.items())) for e in q)
    return norm(want['rows']) == norm(got['rows'])


def gen(rng, tier):
    for _ in range(900 if tier == 'quick' else 12000):
        fs = rng.choice([12, 16, 32, 64])
        ex = fs == 64
        items, dirs, room = [], [0], {0: 16 - (1 if ex else 0)}
        rare = rng.random() < 0.4
        for k in range(rng.choice([1, 3, 6, 10, 14])):
            up = rng.choice(dirs)
            if room[up] < 5:
                continue
            kind = rng.choice(['file', 'file', 'dir', 'dir', 'file', 'label', 'part', 'null'] if rare else ['file', 'dir'])
            if kind == 'label' and (up or (ex and any(x['k'] == 'label' for x in items))):
                kind = 'file'
            if ex and kind == 'null':
                kind = 'file'
            d = rng.random() < 0.3 and not (ex and kind == 'label')
            n = rng.choice([1, 2, 8])
            nm = [rng.choice(range(65, 91))] + [rng.choice(list(range(65, 91)) + [48, 57, 126, 33, 35, 95, 45]) for _ in range(n - 1)]
            nm[-1] = 65 + len(items) % 26 if len(nm) > 1 or not d else nm[-1]
            ext = [rng.choice([84, 88, 49]) for _ in range(rng.choice([0, 0, 1, 3]))]
            ln = []
            if ex or kind == 'part' or (kind != 'label' and rng.random() < 0.5):
                al = [97, 122, 32, 44, 39 if ex else 34, 39, 233, 1078, 20013, 0x20AC, 45, 95, 59]
                ln = [rng.choice(al) for _ in range(rng.choice([1, 5, 11 if kind == 'label' else 13, 11 if kind == 'label' else 15]))]
                ln[-1] = 97 + len(items)
            if kind == 'null':
                nm, ext, ln, d = [65], [], [], False
            if kind == 'label':
                ext = []
            items.append({'up': up, 'k': kind, 'd': d, 'nm': nm, 'ext': ext, 'lc': [rng.random() < 0.3, rng.random() < 0.3], 'ln': ln, 't': [rng.choice([0, rng.randrange(1, 128)]) for _ in range(3)], 'size': rng.randrange(5), 'enc': rng.random() < 0.3, 'tz': [rng.choice([NOZONE, 0, 15 * rng.randrange(-64, 64)]) for _ in range(3)]})
            room[up] -= 3
            if kind == 'dir':
                dirs.append(len(items))
                room[len(items)] = 14 if not ex else 16
        yield {'fs': fs, 'items': items}


GENERATORS = {'FatReport': gen}
