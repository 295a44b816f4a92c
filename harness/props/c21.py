"""C21: FAT directory entries."""
import random
from dfir_ntfs.addons import FAT

ID = 'C21'
FAT.WARN_FUNC = lambda *a: None


def runs(tier):
    def job(family, **kw):
        return dict(module='FatDir', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=4, heap='6g', **kw)
    return [job('pairs'), job('core', cases=False), job('more', cases=False), job('fields', cases=False)]


def units(s):
    b = s.encode('utf-16le', 'surrogatepass')
    return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]


def stamp(t):
    if t is None:
        return [-1]
    if t.microsecond % 10000:
        return ['sub-centisecond']
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 10000]


def observe(entries):
    out = []
    for e in entries:
        if type(e) is FAT.OrphanLongEntry:
            out.append({'orphan': units(e.long_name_partial)})
        else:
            out.append({'del': {True: 'yes', False: 'no', None: 'unknown'}[e.is_deleted], 'dir': bool(e.is_directory), 'sn': units(e.short_name), 'raw': list(e.short_name_raw),
                        'ln': [-1] if e.long_name is None else units(e.long_name), 'at': [-1] if e.atime is None else [e.atime.year, e.atime.month, e.atime.day], 'mt': stamp(e.mtime), 'ct': stamp(e.ctime),
                        'size': list(e.size.to_bytes(4, 'little')), 'attr': e.attributes, 'nt': e.ntbyte, 'lo': e.first_cluster & 0xFFFF, 'hi': e.first_cluster >> 16, 'enc': bool(e.is_encrypted)})
    return out


def execute(inp):
    buf = b''.join(bytes(s) for s in inp['slots'])
    buf += b'\0' * (-len(buf) % 512) if buf else b'\0' * 512
    d = FAT.DirectoryEntries(buf, inp['fat32'])
    a = observe(d.entries(inp['enc'], inp['short']))
    if observe(d.entries(inp['enc'], inp['short'])) != a:
        return {'st': 'a second pass differs'}
    return {'out': a}


def checksum(nm):
    c = 0
    for x in nm:
        c = (((c & 1) << 7) + (c >> 1) + x) & 255
    return c


def long_slots(name, cs, rng, removed=None):
    u = list(name)
    if len(u) % 13:
        u.append(0)
        u += [0xFFFF] * (-len(u) % 13)
    n = len(u) // 13
    out = []
    for k in range(n, 0, -1):
        p = b''.join(x.to_bytes(2, 'little') for x in u[(k - 1) * 13:k * 13])
        o = k | (0x40 if k == n else 0) if removed is None else removed
        out.append([o & 255] + list(p[:10]) + [15, 0, cs] + list(p[10:22]) + [0, 0] + list(p[22:]))
    return out


def short_slot(nm, attr, rng):
    s = list(nm) + [attr, rng.choice([0, 0, 8, 16, 24, 1, 3, 0xE7])] + [rng.randrange(256) for _ in range(19)]
    return s


def gen(rng, tier):
    al = [65, 90, 48, 95, 126, 32, 0x8A, 0xC4, 0xE5, 43, 35]
    for _ in range(2500 if tier == 'quick' else 30000):
        slots = []
        cap = 60 if _ % 60 else 260
        want = rng.choice([1, 4, 12, 20, 40]) if cap == 60 else cap
        while len(slots) < want:
            nm = [rng.choice(al) for _ in range(11)]
            if nm[0] == 32 or rng.random() < 0.6:
                nm[0] = rng.choice([65, 67, 5, 48])
            if rng.random() < 0.05:
                nm[rng.randrange(11)] = rng.choice([97, 46, 0, 34, 10, 13, 31, 127])
            removed = rng.random() < 0.35
            attr = rng.choice([0x20, 0x20, 0x10, 0, 1, 0x21, 8, 0x28, 0x18, 0xE0, 0x50])
            fresh = []
            if rng.random() < 0.7 and not (attr & 0x18 == 8):
                n = rng.choice([1, 5, 12, 13, 14, 26, 30, 60, 255, 260])
                name = [rng.choice([97, 98, 0x430, 0x4E2D, 32, 46, 0xD83D, 0xDE00, 0xFFFE]) if rng.random() < 0.3 else 97 + rng.randrange(26) for _ in range(n)]
                if rng.random() < 0.03:
                    name[0] = 0
                fresh = long_slots(name, checksum(nm) ^ (1 if rng.random() < 0.08 else 0), rng, rng.choice([0xE5, 0xE5, 0]) if removed and rng.random() < 0.9 else None)
                x = rng.random()
                if x < 0.08:
                    del fresh[rng.randrange(len(fresh))]
                elif x < 0.13:
                    k = rng.randrange(len(fresh))
                    fresh.insert(k, list(fresh[k]))
                elif x < 0.17:
                    rng.shuffle(fresh)
                elif x < 0.21:
                    fresh[rng.randrange(len(fresh))][12] = 1
                elif x < 0.25:
                    fresh[rng.randrange(len(fresh))][13] ^= 0x10
                elif x < 0.3:
                    fresh[rng.randrange(len(fresh))][0] = rng.choice([0x40, 0x54, 0x55, 1, 0x41, 0, 0xE5, 20, 21])
            slots += fresh
            if rng.random() < 0.93:
                s = short_slot(nm, attr, rng)
                if removed:
                    s[0] = rng.choice([0xE5, 0xE5, 0])
                slots.append(s)
            if rng.random() < 0.05:
                slots.append([rng.choice([0, 0xE5])] * 32)
                for _ in range(rng.choice([0, 0, 1, 2])):   # not quite that
                    slots[-1][rng.choice([31, 30, 29, 28, 16, 22, rng.randrange(12, 32), rng.randrange(32)])] = rng.choice([0, 1, 0x21, 0xE5])
        yield {'slots': slots[:cap], 'fat32': rng.random() < 0.5, 'enc': rng.choice(['ascii', 'latin-1']), 'short': rng.random() < 0.1}


GENERATORS = {'FatDir': gen}
