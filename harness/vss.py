"""Writes volumes with shadow copies: the environment of the Vss and VssCatalogue specifications, in bytes."""
import random
import struct
import uuid

BS = 0x4000
GUID = b'\x6B\x87\x08\x38\x76\xC1\x48\x4E\xB7\xAE\x04\x04\x6E\x6C\xC7\x52'


class SparseFile(object):
    """A read-only file object over blocks; what is not set is a pattern that tells its offset."""

    def __init__(self, blocks, length, base=0, salt=0):
        self.blocks, self.length, self.base, self.salt, self._p = blocks, length, base, salt, 0

    def block(self, i):
        b = self.blocks.get(i)
        if b is None:
            b = b''.join(struct.pack('<QQ', i * BS + j * 512 + 1, 0x5A5A000000000000 + self.salt) * 32 for j in range(32))
        return b

    def seek(self, offset, whence=0):
        p = offset if whence == 0 else self._p + offset if whence == 1 else self.base + self.length + offset
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self._p = p
        return p

    def tell(self):
        return self._p

    def read(self, size=-1):
        end = self.base + self.length
        size = max(0, end - self._p) if size is None or size < 0 else max(0, min(size, end - self._p))
        out = b''
        while len(out) < size:
            at = self._p + len(out)
            if at < self.base:
                n = min(size - len(out), self.base - at)
                out += b'\xEE' * n
                continue
            i, o = divmod(at - self.base, BS)
            out += self.block(i)[o:o + size - len(out)]
        self._p += len(out)
        return out

    def close(self):
        pass


def cell(value, salt):
    """The 32 sectors of a block holding this value."""
    if value == 0:
        return [b'\0' * 512] * 32
    return [struct.pack('<LLQ', value, j, 0x1122334455667788 + salt) * 32 for j in range(32)]


def content(pair, split, salt):
    """A block whose two groups of sectors hold these values."""
    a, b = cell(pair[0], salt), cell(pair[1], salt)
    return b''.join(a[j] if (split >> j) & 1 else b[j] for j in range(32))


def header(kind, o1, o2, o3):
    return GUID + struct.pack('<LLQQQ', 1, kind, o1, o2, o3)


def start_block(first, vol, store, sig=b'NTFS'):
    b = bytearray(BS)
    b[:7] = b'\xEB\x52\x90' + sig
    x = header(1, 7680, 7680, 0) + struct.pack('<QQ', first, 0x10000000) + vol.bytes_le + store.bytes_le
    b[7680:7680 + len(x)] = x
    return bytes(b)


def item2(guid, size, pos, flags, ts=131000000000000000):
    return struct.pack('<LLQ', 2, 0, size) + guid.bytes_le + struct.pack('<QQQH', pos, flags, ts, 0x40).ljust(0x60, b'\0')


def item3(guid, diff, app, loc, bitmap, prev):
    return (struct.pack('<LLQ', 3, 0, diff) + guid.bytes_le + struct.pack('<QQQQQQL', app, loc, bitmap, 77, 0x100000, prev, 0)).ljust(0x80, b'\0')


FREE_ITEM = struct.pack('<L', 1).ljust(0x80, b'\x33')


class Volume(object):
    def __init__(self, first_free, used=(), rng=None):
        self.blocks, self.next, self.used, self.rng, self.pool = {}, first_free, set(used), rng, []

    def alloc(self):
        while len(self.pool) < (6 if self.rng else 1):   # blocks are not always handed out in ascending order
            if self.next not in self.used and self.next not in self.blocks:
                self.pool.append(self.next)
            self.next += 1
        return self.pool.pop(self.rng.randrange(len(self.pool)) if self.rng else 0)

    def chain(self, kind, bodies, skip_zero=True):
        """A chain of metadata blocks; returns the offset of the first."""
        at = [self.alloc() for _ in bodies]
        for j, (i, body) in enumerate(zip(at, bodies)):
            nxt = at[j + 1] * BS if j + 1 < len(at) else 0
            self.blocks[i] = (header(kind, j * BS, i * BS, nxt).ljust(0x80, b'\0') + body).ljust(BS, b'\0')[:BS]
        return at[0] * BS if at else 0


def write(ops, n, where, size, salt=0, split=0xFFFF, two=False, per=508, rng=None, stamps=None, pos0=1):
    """The image(s) after these operations: (protected volume, storage volume or None, store identifiers, current block contents)."""
    rng = rng or random.Random(1)
    vol = {b: (1000 + b, 1000 + b) for b in range(1, n + 1)}
    stores = []
    home = dict((b, where[b - 1]) for b in range(1, n + 1))
    mix = rng if rng.random() < 0.6 else None
    p = Volume(8, used=list(home.values()), rng=mix)
    s = Volume(2, rng=mix) if two else p

    def save(st, b):
        xs = [x for x in st['fwd'] if st['fwd'][x] == b]
        if xs:
            del st['fwd'][xs[0]]
            st['kept'].add(xs[0])
        elif b in st['e'] or b in st['kept'] or b in st['fwd']:
            return
        else:
            st['kept'].add(b)
        st['ents'].append(('reg', b, 0, content(vol[b], split, salt), 0))

    for v, op in enumerate(ops, 1):
        o = op['o']
        if o == 'snap':
            u = set(op['u'])
            e = u & stores[-1]['e'] if stores else u
            stores.append({'u': u, 'pu': stores[-1]['e'] if stores else None, 'e': e, 'nul': op['nul'], 'ents': [], 'fwd': {}, 'kept': set(), 'snap': dict(vol)})
        elif o == 'write':
            if stores:
                save(stores[-1], op['b'])
            vol[op['b']] = (v, v)
        elif o == 'move':
            st = stores[-1]
            xs = [x for x in st['fwd'] if st['fwd'][x] == op['b']]
            st['fwd'][xs[0] if xs else op['b']] = op['t']
            st['ents'].append(('fwd', op['b'], op['t'], None, 0))
            vol[op['t']] = vol[op['b']]
        elif o == 'touch':
            stores[op['s'] - 1]['ents'].append(('ovl', op['b'], 0, content((v, v), split, salt), op['h']))
        elif o == 'resave':
            stores[-1]['ents'].append(('self', op['b'], 0, content(stores[-1]['snap'][op['b']], split, salt), 0))
        elif o == 'junk':
            stores[-1]['ents'].append(('junk', op['b'], 0, content((v, v), split, salt), 0))
    for b in vol:
        p.blocks[home[b]] = content(vol[b], split, salt)
    guids = [uuid.UUID(int=rng.getrandbits(128)) for _ in stores]
    items2, items3 = [], []
    for i, st in enumerate(stores):
        rows = []
        for k, b, t, data, h in st['ents']:
            if k == 'fwd':
                rows.append(struct.pack('<QQQLL', home[b] * BS, home[t] * BS, 0, 1, 0))
                continue
            at = s.alloc()
            s.blocks[at] = data
            if k == 'self':
                rows.append(struct.pack('<QQQLL', home[b] * BS, home[b] * BS, at * BS, 1, 0))
                continue
            flags, bm = {'reg': (rng.choice([0, 0, 0, 8, 0x10, 0x20, 0x40, 0x80]), 0), 'junk': (4 | rng.choice([0, 1, 2, 8]), rng.getrandbits(32)), 'ovl': (2 | rng.choice([0, 0, 0x10]), split if h == 1 else split ^ 0xFFFFFFFF)}[k]
            if k == 'ovl' and rng.random() < 0.5:   # sectors that are not part of the overlay hold something else
                sec = [data[j * 512:(j + 1) * 512] if (bm >> j) & 1 else b'\xDD' * 512 for j in range(32)]
                s.blocks[at] = b''.join(sec)
            rows.append(struct.pack('<QQQLL', home[b] * BS, (len(rows) + 1) * BS, at * BS, flags, bm))
        bodies = [b''.join(rows[j:j + per]) for j in range(0, max(len(rows), 1), per)]
        diff = s.chain(3, bodies)

        def bitmap(blocks):
            nb = (-(-size // BS) + 7) // 8
            m = bytearray(nb)
            for b in blocks:
                m[home[b] // 8] |= 1 << (home[b] % 8)
            step = BS - 0x80
            return s.chain(6, [bytes(m[j:j + step]) for j in range(0, nb, step)])
        bm = bitmap(st['u'])
        prev = 0 if st['pu'] is None else bitmap(st['pu'])
        loc = s.chain(5, [struct.pack('<QQQ', 9 * BS, 0, BS)])
        app = s.chain(4, [b'info'])
        items2.append(item2(guids[i], size, pos0 + i, 0x400 if st['nul'] else 0, *(stamps[i:i + 1] if stamps else ())))
        items3.append(item3(guids[i], diff, app, loc, bm, prev))

    def catalogue(v, items):
        items = list(items)
        rng.shuffle(items)
        for _ in range(rng.choice([0, 0, 1])):
            items.insert(rng.randrange(len(items) + 1), FREE_ITEM)
        k = rng.choice([1, 2, 127])
        return v.chain(2, [b''.join(items[j:j + k]) for j in range(0, max(len(items), 1), k)])
    gp, gs = uuid.UUID(int=5), uuid.UUID(int=6)
    if two:
        p.blocks[0] = start_block(catalogue(p, items2), gp, gs)
        s.blocks[0] = start_block(catalogue(s, items3), gs, gs, b'ReFS')
    else:
        p.blocks[0] = start_block(catalogue(p, items2 + items3), gp, gp)
    return p.blocks, (s.blocks if two else None), guids, stores
