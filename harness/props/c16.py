"""C16: shadow copies stored on the volume itself (and, for C17, on another one)."""
import random
from dfir_ntfs import ShadowCopy
import vss
from vss import BS

ID = 'C16'


def setup(n, size, arg=0, reads=()):
    def r(x):
        return '[o |-> "%s", a |-> %d, w |-> %d]' % x
    return '[n |-> %d, size |-> %d, arg |-> %d, reads |-> <<%s>>]' % (n, size, arg, ', '.join(map(r, reads)))


def job(setups, maxops, snaps, kinds, tier, **kw):
    return dict(module='Vss', constants={'Scope': '"%s"' % tier, 'Setups': '{%s}' % ', '.join(setups), 'MaxOps': str(maxops), 'MaxSnaps': str(snaps), 'Kinds': '{%s}' % ', '.join('"%s"' % k for k in kinds)}, workers=4, heap='6g', **kw)


SIZE = 64 * BS + 512 * 3


def runs(tier):
    q = tier == 'quick'
    reads = [[('read', 100, 0), ('read', 5, 0)], [('seek', 2 * BS - 10, 0), ('read', 20, 0), ('read', BS, 0), ('seek', -3, 1), ('read', 7, 0)],
             [('seek', -7, 2), ('read', 100, 0), ('read', -1, 0), ('seek', -1, 0), ('seek', 1, 0), ('read', 3, 0)],
             [('seek', 63 * BS + 5, 0), ('read', 2 * BS, 0)], [('seek', 5, 2), ('read', 5, 0), ('seek', 0, 3), ('seek', 64 * BS, 0), ('read', -1, 0)],
             [('seek', BS, 0), ('read', 3 * BS, 0), ('read', 0, 0), ('seek', -SIZE * 2, 1)]]
    return [job([setup(3, SIZE)], 4 if q else 6, 2, ['snap', 'move'], tier),
            job([setup(2, SIZE)], 4 if q else 5, 2, ['snap', 'move', 'touch', 'junk', 'resave'], tier, cases=False),
            job([setup(2, SIZE)], 5 if q else 6, 3, ['snap'], tier, cases=False),
            job([setup(2, SIZE, a, r) for r in reads for a in (0, SIZE - 512, SIZE + BS)], 2, 1, ['snap'], tier, cases=False)]


def execute(inp, two=False):
    rng = random.Random(repr(sorted(inp['ops'], key=repr)) + str(len(inp['ops'])))
    n = inp['n']
    size = 500000 * BS if inp.get('map') else inp['size']   # (the specification has 32-bit integers; no reads in this case)
    where = inp.get('map') or sorted(rng.sample(range(1, (min(inp['size'], inp['arg']) if inp['arg'] else inp['size']) // BS), n), key=lambda x: rng.random())
    split = rng.choice([0xFFFF, 0xFFFF0000, 0x55555555, 1, 0x7FFFFFFF, rng.getrandbits(32) | 1 & ~2])
    split = split if split not in (0, 0xFFFFFFFF) else 2
    salt = rng.randrange(1000)
    per = rng.choice([1, 2, 508])
    base, sbase = rng.choice([0, 512, 1 << 20]), rng.choice([0, 1536, 1 << 33])
    pb, sb, guids, stores = vss.write(inp['ops'], n, where, size, salt, split, two, per, rng, pos0=rng.choice([1, 1, 5, 64]))
    length = max([size] + [(b + 1) * BS for b in pb]) + 3 * BS
    f = vss.SparseFile(pb, length, base)
    arg = inp['arg'] or None

    def open_it():
        if two:
            g = vss.SparseFile(sb, (max(sb) + 2) * BS, sbase, salt=9)
            return ShadowCopy.ShadowParserTwoVolumes(f, g, base, arg, sbase)
        return ShadowCopy.ShadowParser(f, base, arg)
    views, reads = [], []
    one = open_it()
    infos = sorted(one.shadows(), key=lambda x: x.stack_position)
    if [x.store_guid for x in infos] != guids or any(x.volume_size != size for x in infos):
        return {'st': 'stores listed differently'}
    for i, g in enumerate(guids):
        p = open_it() if rng.random() < 0.5 else one
        p.select_shadow(g if rng.random() < 0.5 else infos[i].stack_position)
        got = {}
        order = list(range(1, n + 1))
        if rng.random() < 0.5:   # in any order, and some of them again
            order = rng.sample(order, n) + rng.sample(order, rng.randrange(n + 1))
        for b in order:
            at = where[b - 1] * BS
            if p.seek(at) != at:
                return {'st': 'seek'}
            data = p.read(BS)
            if p.tell() != at + len(data) or len(data) != BS:
                return {'st': 'position or length', 'b': b}
            if not two and rng.random() < 0.2:
                p.seek(at)
                marked = p.read(BS, True)
                here = f.block(where[b - 1])
                for j in range(0, BS, 512):
                    d, m = data[j:j + 512], marked[j:j + 512]
                    if d != (bytes(512) if m == b'EMPTY           ' * 32 else here[j:j + 512] if m == b'ORIGINAL        ' * 32 else m) or (m == d and not any(d)):
                        return {'st': 'marked otherwise', 'b': b}
            vals = []
            for h in (1, 2):
                secs = [j for j in range(32) if ((split >> j) & 1) == (1 if h == 1 else 0)]
                x = set()
                for j in secs:
                    d = data[j * 512:(j + 1) * 512]
                    v = int.from_bytes(d[:4], 'little')
                    x.add(v if d == vss.cell(v, salt)[j] else -9)
                vals.append(x.pop() if len(x) == 1 else -8)
            if got.setdefault(b, vals) != vals:
                return {'st': 'another content when read again', 'b': b}
        views.append([got[b] for b in range(1, n + 1)])
        if i == 0 and not inp.get('map'):
            full = None
            p.seek(0)
            for r in inp['reads']:
                if r['o'] == 'seek':
                    before = p.tell()
                    try:
                        x = p.seek(r['a'], r['w'])
                    except ValueError:
                        reads.append([-1, p.tell(), 0])
                        if p.tell() != before:
                            return {'st': 'a rejected seek moved the position'}
                        continue
                    reads.append([0, x, 0])
                else:
                    at = p.tell()
                    d = p.read() if r['a'] == -1 else p.read(r['a'])
                    if p.tell() != at + len(d):
                        return {'st': 'position after read'}
                    if full is None:   # what block-wise reading shows
                        q = open_it()
                        q.select_shadow(g)
                        full = b''.join(q.read_at_exact_offset(o) for o in range(0, inp['size'] if not arg else min(arg, inp['size']), BS))
                    if d != full[at:at + len(d)]:
                        return {'st': 'data of read differ', 'r': r}
                    reads.append([1, at, len(d)])
        # Blocks that no store knows are those of the volume (up to the end of the image).
        for o in rng.sample(range(1, max(2, min(64, inp['size'] // BS))), 1):
            if o not in where:
                p.seek(o * BS)
                end = min(size, arg) if arg else size
                if p.read(BS) != f.block(o)[:max(0, end - o * BS)]:
                    return {'st': 'an untouched block differs', 'o': o}
                if not two:
                    p.seek(o * BS)
                    if p.read(BS, True) != (b'ORIGINAL        ' * (BS // 16))[:max(0, end - o * BS)]:
                        return {'st': 'an untouched block is not marked as original', 'o': o}
    return {'views': views, 'reads': reads}


def agree(m, inp, want, got):
    if 'views' not in got or len(got['views']) != len(want['views']):
        return False
    for a, b in zip(want['views'], got['views']):
        for x, y in zip(a, b):
            for u, v in zip(x, y):
                if u != v and (u != -1 or v < 0):
                    return False
    return inp.get('map') is not None or not want['views'] or want['reads'] == got['reads']


def gen(rng, tier):
    total = 500 if tier == 'quick' else 8000
    for turn in range(total + (7 if tier == 'quick' else 150)):
        many = turn >= total      # many blocks, snapshots, and changes
        n = rng.choice([6, 12, 20]) if many else rng.choice([2, 3, 4, 6])
        big = rng.random() < 0.15 and not many
        size = rng.choice([64 * BS, 64 * BS + 512, 63 * BS + 0x2000 + 512, 70 * BS, 66 * BS, 71 * BS + 1024, 30 * BS])
        wide = turn % 250 == 120       # read in many megabytes
        if wide:
            size, big = rng.choice([1100, 2100]) * BS + 512, False
        inp = {'n': n, 'size': size, 'arg': rng.choice([0, 0, size, size - 512, size - BS, size + BS]), 'reads': [], 'ops': []}
        if big:   # far away, beyond what fits in one bitmap block, or in 32 bits of bytes
            m = [130046, 130047, 130048, 130049, 131072, 262143, 262144, 262145, 300000, 400001, 3, 5]
            inp['map'] = rng.sample(m, n)
            inp['size'], inp['arg'] = 2000000000, 0
        snaps, e, st = 0, None, None
        fwd, kept, touched, ts = {}, set(), {}, set()
        for _ in range(rng.choice([50, 70]) if many else rng.choice([4, 8, 15, 30])):
            x = rng.random()
            bl = range(1, n + 1)
            b = rng.choice(bl)
            if snaps == 0 or (x < 0.15 and snaps < (16 if many else 5)):
                u = [y for y in bl if rng.random() < 0.4 and y not in fwd.values()]
                e = set(u) if e is None else e & set(u)
                fwd, kept = {}, set()
                snaps += 1
                touched[snaps], ts = set(), set()
                op = {'o': 'snap', 'u': u, 'nul': rng.random() < 0.6}
            elif x < 0.55:
                xs = [y for y in fwd if fwd[y] == b]
                if xs:
                    kept.add(xs[0])
                    del fwd[xs[0]]
                elif b not in e and b not in fwd:
                    kept.add(b)
                op = {'o': 'write', 'b': b}
            elif x < 0.75:
                c = [(y, t) for y in bl for t in bl if y != t and t in e and t not in fwd.values() and t not in touched[snaps] and ((y not in e and y not in kept and y not in fwd) or y in fwd.values())]
                if not c:
                    continue
                y, t = rng.choice(c)
                xs = [z for z in fwd if fwd[z] == y]
                fwd[xs[0] if xs else y] = t
                ts.add(t)
                op = {'o': 'move', 'b': y, 't': t}
                inp.setdefault('_t', {}).setdefault(snaps, set()).add(t)
            elif x < 0.90:
                s = rng.choice([snaps, snaps, rng.randrange(1, snaps + 1)])
                if b in inp.get('_t', {}).get(s, ()):
                    continue
                touched[s].add(b)
                op = {'o': 'touch', 's': s, 'b': b, 'h': rng.choice([1, 2])}
            elif x < 0.96:
                if b not in kept or b in fwd.values():
                    continue
                op = {'o': 'resave', 'b': b}
            else:
                op = {'o': 'junk', 'b': b}
            inp['ops'].append(op)
        inp.pop('_t', None)
        if not big:
            end = min(size, inp['arg']) if inp['arg'] else size
            for _ in range(rng.choice([0, 2, 6, 12])):
                if rng.random() < 0.5:
                    w = rng.choice([0, 0, 0, 1, 2, 3, -1])
                    a = rng.choice([0, 1, -1, BS, end, end - 1, end - BS, end + 5, rng.randrange(end), -rng.randrange(end)])
                    inp['reads'].append({'o': 'seek', 'a': a, 'w': w})
                else:
                    inp['reads'].append({'o': 'read', 'a': rng.choice([-1, 0, 1, 511, 512, 513, BS - 1, BS, BS + 1, 3 * BS, rng.randrange(5 * BS), 1 << 20]), 'w': 0})
            if wide:
                inp['reads'] = [{'o': 'read', 'a': -1, 'w': 0}, {'o': 'seek', 'a': 70001, 'w': 0}, {'o': 'read', 'a': end - 80000, 'w': 0}]
        yield inp


GENERATORS = {'Vss': gen}
