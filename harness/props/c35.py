"""C35: the report made of a volume and its shadow copies (ntfs_parser --all-mft)."""
import random
import struct
import uuid
import cli
import ntfs
import vss
from vss import BS
from props.c30 import HEAD

ID = 'C35'
SLOTS = 3


def runs(tier):
    q = tier == 'quick'
    return [dict(module='AllReport', constants={'Scope': '"%s"' % tier, 'Slots': str(SLOTS), 'MaxOps': '5' if q else '7', 'MaxSnaps': '2' if q else '3'}, workers=4, heap='6g')]


def table(f, room, numbers, per, runs, cs, names):
    """The blocks of the $MFT; numbers of the files, records per block."""
    blocks = 2 if room < SLOTS else 3
    out = []
    n = blocks * per
    for k in range(n):
        attrs = []
        seq, use, d = 1, True, False
        if k in (0, 3, 5):
            seq = k or 1
            attrs.append(ntfs.resident(0x30, ntfs.file_name(ntfs.ref(5, 5), {0: '$MFT', 3: '$Volume', 5: '.'}[k], flags=3)))
            if k == 3:
                attrs.append(ntfs.resident(0x70, ntfs.volume_info()))
            if k == 0:
                attrs.append(ntfs.nonresident(0x80, ntfs.pairs(runs[:blocks]), 0, n * 1024 // cs - 1, n * 1024, alloc=n * 1024))
            d = k == 5
        elif k in numbers and f[numbers.index(k)]['nm'] and numbers.index(k) < room:
            r = f[numbers.index(k)]
            seq, use = r['seq'], bool(r['use'])
            attrs.append(ntfs.resident(0x30, ntfs.file_name(ntfs.ref(5, 5), names[r['nm']], flags=3)))
        else:
            out.append(bytes(1024))
            continue
        out.append(ntfs.frs(attrs, number=k, seq=seq, in_use=use, directory=d, usn=bytes([k % 251 + 1, 7])))
    raw = b''.join(out)
    return [raw[i * BS:(i + 1) * BS] for i in range(blocks)]


def image(inp, rng):
    per = BS // 1024
    cs = rng.choice([512, 4096, 16384])
    places = sorted(rng.sample(range(1, 30), 3), key=lambda x: rng.random())
    runs = [(p * BS // cs, BS // cs) for p in places]
    numbers = [rng.randrange(6, per), rng.randrange(per, 2 * per), rng.randrange(2 * per, 3 * per)]
    if rng.random() < 0.4:
        numbers[0] = numbers[1] + 1 if numbers[1] + 1 < 2 * per else numbers[1] - 1
    names = {v: 'file %d%s' % (v, rng.choice(['', ',x', '"', '\u0436'])) for v in range(1, len(inp['ops']) + 1)}
    f = [{'seq': 1, 'use': 0, 'nm': 0} for _ in range(SLOTS)]
    room = SLOTS - 1
    vol = vss.Volume(40, used=[0] + places)
    size = 36 * BS
    stores = []

    def now():
        return dict(zip(places, table(f, room, numbers, per, runs, cs, names)))
    cur = {p: b'\xCC' * BS for p in places}
    cur.update(now())
    for v, op in enumerate(inp['ops'], 1):
        s = op['s'] - 1
        if op['o'] == 'snap':
            stores.append([])
            continue
        if op['o'] == 'grow':
            room = SLOTS
        elif op['o'] == 'drop':
            f[s] = {'seq': f[s]['seq'] + 1, 'use': 0, 'nm': f[s]['nm']}
        else:
            f[s] = {'seq': f[s]['seq'], 'use': 1, 'nm': v}
        for p, b in now().items():
            if b != cur[p]:
                if stores and p not in [x for x, _ in stores[-1]]:
                    stores[-1].append((p, cur[p]))
                cur[p] = b
    for p, b in cur.items():
        vol.blocks[p] = b
    guids = [uuid.UUID(int=rng.getrandbits(128)) for _ in stores]
    pos0 = rng.choice([1, 3, 64])
    items = []
    for i, st in enumerate(stores):
        rows = []
        for p, b in st:
            at = vol.alloc()
            vol.blocks[at] = b
            rows.append(struct.pack('<QQQLL', p * BS, (len(rows) + 1) * BS, at * BS, 0, 0))
        diff = vol.chain(3, [b''.join(rows)])
        bm = vol.chain(6, [bytes(8)])
        prev = vol.chain(6, [bytes(8)]) if i else 0
        loc = vol.chain(5, [struct.pack('<QQQ', 9 * BS, 0, BS)])
        app = vol.chain(4, [b'info'])
        items.append([vss.item2(guids[i], size, pos0 + i, 0), vss.item3(guids[i], diff, app, loc, bm, prev)])
    if rng.random() < 0.3:
        items.reverse()
    items = [x for p in items for x in p]
    g = uuid.UUID(int=5)
    first = vol.chain(2, [b''.join(items)]) if items or rng.random() < 0.5 else 0
    b0 = bytearray(vss.start_block(first, g, g) if inp['on'] else bytes(BS))
    b0[:512] = ntfs.boot_sector(bps=512, spc=cs // 512, total=size // 512, mft=runs[0][0], frs_code=0xF6, idx_code=1 if cs >= 4096 else 8)
    vol.blocks[0] = bytes(b0)
    last = max(max(vol.blocks), 36) + 1
    fobj = vss.SparseFile(vol.blocks, last * BS)
    base = rng.choice([0, 512, 1 << 16])
    return b'\xEB' * base + fobj.read(last * BS), base, numbers, names, pos0


def execute(inp):
    rng = random.Random(repr(inp))
    img, base, numbers, names, pos0 = image(inp, rng)
    t = cli.table(cli.run('ntfs_parser', ['--all-mft', '@img', str(base), '@out'], {'img': img}, 'out'))
    if not t or t[0] != HEAD:
        return {'st': 'header'}
    back = {'/' + n: v for v, n in names.items()}
    groups, order = {}, []
    for r in t[1:]:
        if not r[0].startswith('File record (') or not r[0].endswith(')'):
            return {'st': 'source', 'row': r}
        tag = r[0][13:-1]
        if not order or order[-1] != tag:
            order.append(tag)
        groups.setdefault(tag, []).append(r)
    if len(order) != len(set(order)) or order[:1] != ['main volume']:
        return {'st': 'order', 'order': order}
    snaps = sum(1 for o in inp['ops'] if o['o'] == 'snap')
    if set(order[1:]) != set('shadow copy %d' % (pos0 + i) for i in range(snaps)):
        return {'st': 'sources', 'order': order}

    def rows(q):
        head, out = [], []
        if [int(r[1]) & 0xFFFFFFFFFFFF for r in q] != sorted(int(r[1]) & 0xFFFFFFFFFFFF for r in q):
            return ['order']
        for r in q:
            n, s = int(r[1]) & 0xFFFFFFFFFFFF, int(r[1]) >> 48
            if n in numbers:
                out.append({'s': numbers.index(n) + 1, 'seq': s, 'use': {'Y': 1, 'N': 0}[r[2]], 'nm': back.get(r[5], -1)})
            else:
                head.append((n, s, r[5]))
        out.sort(key=lambda x: x['s'])
        return out if head == [(0, 1, '/$MFT'), (3, 3, '/$Volume'), (5, 5, '/.')] else [head]
    return {'st': 'ok', 'main': rows(groups['main volume']), 'copies': [rows(groups['shadow copy %d' % (pos0 + i)]) for i in range(snaps)]}


def gen(rng, tier):
    for _ in range(100 if tier == 'quick' else 2500):
        ops, use, room, snaps = [], [0] * SLOTS, SLOTS - 1, 0
        on = rng.random() < 0.9
        for _ in range(rng.choice([6, 10, 16, 25])):
            r = rng.random()
            s = rng.randrange(room)
            if r < 0.25 and on and snaps < 12:
                ops.append({'o': 'snap', 's': 0})
                snaps += 1
            elif r < 0.32 and room < SLOTS:
                room = SLOTS
                ops.append({'o': 'grow', 's': 0})
            elif use[s]:
                o = rng.choice(['name', 'name', 'drop'])
                use[s] = int(o == 'name')
                ops.append({'o': o, 's': s + 1})
            else:
                use[s] = 1
                ops.append({'o': 'make', 's': s + 1})
        yield {'ops': ops, 'on': on}


GENERATORS = {'AllReport': gen}
