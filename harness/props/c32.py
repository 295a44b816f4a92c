"""C32: the report made of the file name indexes of a volume (ntfs_parser --indx)."""
import random
import struct
import cli
import mft
import ntfs
from props.c07 import gen_segs
from props.c30 import mace, name, path, text

ID = 'C32'
HEAD = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']


def runs(tier):
    return [dict(module='IndexReport', constants={'Scope': '"%s"' % tier}, workers=8)]


def buffer(b, number, size, rng):
    raw = bytearray(size)
    raw[0:4] = b'INDX'
    struct.pack_into('<QQ', raw, 8, 100 + number, number)
    start = ntfs.align8(40 + 2 * (size // 512 + 1))
    pos = start
    for e in b['es']:
        v = name(e, ntfs.ref(e['pn'], e['ps']))
        if not e['full']:
            v = v[:66] if rng.random() < 0.5 else v[:rng.randrange(1, 66)]
        n = ntfs.align8(16 + len(v))
        raw[pos:pos + n] = (struct.pack('<QHHL', ntfs.ref(e['rn'], e['rs']), n, len(v), 0) + v).ljust(n, b'\0')
        pos += n
    raw[pos:pos + 16] = struct.pack('<QHHL', 0, 16, 0, 2)
    pos += 16
    struct.pack_into('<LLLB', raw, 24, start - 24, pos - 24, size - 24, 0)
    for i, e in enumerate(b['sl']):
        if e['pn'] < 0:             # the reference to the parent has been overwritten by the entries
            assert i == 0
            pos += rng.choice([0, 4])
            v = name(e, 0)[8:]
        else:
            pos += rng.choice([8, 16, 24])
            v = name(e, ntfs.ref(e['pn'], e['ps']))
        raw[pos:pos + len(v)] = v
        pos = ntfs.align8(pos + len(v))
    assert pos <= size - 32
    if rng.random() < 0.6:          # the beginning of what went on in a buffer that is no more
        struct.pack_into('<Q', raw, size - 8, ntfs.ref(5, 5))
    raw = bytearray(ntfs.protect(raw, 40, bytes([number % 250 + 1, 9])))
    if not b['ok']:
        k = rng.randrange(3)
        if k == 0:
            raw[0:4] = b'BAAD'
        elif k == 1:
            raw[512 * rng.randrange(1, size // 512 + 1) - 1] ^= 0x40
        else:
            raw[:] = bytes(size)
    return bytes(raw)


def volume(inp, rng):
    """The volume (with the $MFT and the index buffers), and where in the image it begins."""
    segs = inp['segs']
    bps, spc = rng.choice([(512, 1), (512, 2), (512, 8), (4096, 1), (512, 4)])
    cs = bps * spc
    isize = rng.choice([s for s in (1024, 2048, 4096) if max([0] + [used(b) for g in segs for a in g['al'] for b in a['bufs']]) <= s - 64])
    area = {}                       # cluster -> bytes
    nxt = [8]

    def take(data):
        """Store in fragments; the runs."""
        runs = []
        data = data + bytes(-len(data) % cs)
        at, k = 0, len(data) // cs
        while k:
            c = rng.choice([1, k, k])
            nxt[0] += rng.choice([0, 1, 3])
            lcn = nxt[0]
            for j in range(c):
                area[lcn + j] = data[at:at + cs]
                at += cs
            nxt[0] += c
            if runs and runs[-1][0] + runs[-1][1] == lcn:
                runs[-1] = (runs[-1][0], runs[-1][1] + c)
            else:
                runs.append((lcn, c))
            k -= c
        return runs

    extra = {k: [] for k in range(len(segs))}
    for k, s in enumerate(segs):
        for a in s['al']:
            nm = '$I30' if a['i30'] else '$O'
            data = b''.join(buffer(b, i, isize, rng) for i, b in enumerate(a['bufs']))
            cut = a['cut'] * isize if a['cut'] * isize % cs == 0 else 0
            parts = [data[:cut], data[cut:]] if cut and cut < len(data) else [data]
            lo = 0
            recs = []
            for i, p in enumerate(parts):
                r = take(p)
                n = sum(c for _, c in r)
                recs.append(ntfs.nonresident(0xA0, ntfs.pairs(r), lo, lo + n - 1, len(data) if lo == 0 else 0, alloc=1 << 20, name=nm))
                lo += n
            if rng.random() < 0.3:
                recs.reverse()
            extra[k] += recs
    out = []
    for fill in (False, True):
        out = []
        if fill:
            runs = take(true)
        for k, s in enumerate(segs):
            attrs = [ntfs.resident(0x30, ntfs.file_name(ntfs.ref(x['pn'], x['ps']), text(x['nm']), flags=x['fl'])) for x in s['names']]
            if k == 3:
                attrs.append(ntfs.resident(0x70, ntfs.volume_info()))
            if k == 0:
                n = len(segs) * 1024
                attrs.append(ntfs.nonresident(0x80, ntfs.pairs(runs) if fill else b'\0' * 40, 0, (n + cs - 1) // cs - 1, n, alloc=n + cs))
            attrs += extra[k]
            raw = ntfs.frs(attrs, number=k, seq=s['seq'], in_use=bool(s['use']), directory=bool(s['dir']), base=ntfs.ref(s['bn'], s['bs']), lsn=1000 + k, usn=bytes([k % 251 + 1, 7]))
            out.append(raw if s['v'] else mft.bad_segment(k, 1024, raw))
        true = b''.join(out)
    data, at = true + bytes(-len(true) % cs), 0
    for lcn, c in runs:
        for j in range(c):
            area[lcn + j] = data[at:at + cs]
            at += cs
    total = nxt[0] + 4
    vol = bytearray(total * cs)
    vol[:512] = ntfs.boot_sector(bps=bps, spc=spc, total=total * spc, mft=runs[0][0], frs_code=1024 // cs if cs <= 1024 else 0xF6, idx_code=1)
    for lcn, b in area.items():
        vol[lcn * cs:(lcn + 1) * cs] = b
    off = rng.choice([0, 512, 32256])
    return b'\xEB' * off + bytes(vol), off


def used(b):
    return 80 + 16 + sum(ntfs.align8(16 + 66 + 2 * len(e['nm'])) for e in b['es']) + sum(ntfs.align8(66 + 2 * len(e['nm'])) + 24 for e in b['sl'])


def execute(inp):
    img, off = volume(inp, random.Random(repr(inp)))
    t = cli.table(cli.run('ntfs_parser', ['--indx', '@img', str(off), '@out'], {'img': img}, 'out'))
    return {'st': 'ok', 'rows': t[1:]} if t and t[0] == HEAD else {'st': 'header', 'rows': t}


def agree(m, inp, want, got):
    rows = [['Index record' if r['src'] == 'entry' else 'Index slack', '?' if r['rn'] < 0 else str(ntfs.ref(r['rn'], r['rs'])), 'Y' if r['dir'] else 'N', path(r['path'])] + mace(r['fn']) + [str(r['size'])] for r in want['rows']]
    return got.get('st') == 'ok' and rows == got['rows']


def gen(rng, tier):
    made = 0
    while made < (150 if tier == 'quick' else 3000):
        n = rng.choice([7, 9, 14]) if made % 50 else 60
        segs = gen_segs(rng, n, 'abXY\u0430,"')
        bases = set()
        for k, s in enumerate(segs):
            if s['bn']:
                s['names'] = []
            s['names'] = [x for x in s['names'] if x['fl'] != 2][:1] + [x for x in s['names'] if x['fl'] == 2][:1]
            rng.shuffle(s['names'])
            s['al'] = []

        def parent(k):
            r = rng.random()
            j = k if r < 0.5 else rng.randrange(n + 1)
            q = segs[j]['seq'] if j < n else 1
            return {'pn': j + (ntfs.FAR if rng.random() < 0.05 else 0), 'ps': rng.choice([q, q, max(q - 1, 0), 1, 5])}

        def entry(k, full):
            e = {'rn': rng.randrange(1 << 20), 'rs': rng.randrange(65536)} if full is not None else {}
            e.update(parent(k))
            e.update({'d': rng.randrange(2), 'nm': [rng.choice([97, 98, 34, 44, 0x2603]) for _ in range(rng.randrange(1, 6))], 'id': rng.randrange(0 if full is not None else 1, 90), 'size': rng.randrange(1 << 30)})
            if full is not None:
                e['full'] = full
            return e
        for k in range(4, n):
            b = segs[k]['bn'] or k
            if b in bases or rng.random() < 0.6:
                continue
            bases.add(b)
            kinds = rng.choice([[True], [True], [False], [False, True], [True, False]])
            for i30 in kinds:
                bufs = [{'ok': i == 0 or rng.random() < 0.75, 'es': [entry(k, rng.random() < 0.85) for _ in range(rng.randrange(4))], 'sl': [entry(k, None) for _ in range(rng.choice([0, 0, 1, 2]))]} for i in range(rng.choice([1, 1, 2, 3, 6]))]
                for b in bufs:
                    if b['sl'] and rng.random() < 0.25:
                        b['sl'][0].update({'pn': -1, 'ps': -1})
                segs[k]['al'].append({'i30': i30, 'bufs': bufs, 'cut': rng.randrange(len(bufs))})
        inp = {'segs': segs}
        try:
            volume(inp, random.Random(repr(inp)))
        except (AssertionError, IndexError):
            continue
        made += 1
        yield inp


GENERATORS = {'IndexReport': gen}
