"""C24: exFAT directory entries."""
import random
import struct
from dfir_ntfs.addons import exFAT
import exfat
from props import c21

ID = 'C24'


def runs(tier):
    def job(family, **kw):
        return dict(module='ExfatDir', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=3, heap='4g', **kw)
    return [job('flip')] + [job(x, cases=False) for x in ('dead', 'odd', 'live', 'root', 'maps', 'names')]


def le(v, n):
    return list(v.to_bytes(n, 'little'))


def zone(z):
    return 1000 if z is None else z


def execute(inp):
    buf = b''.join(bytes(s) for s in inp['slots'])
    buf += b'\0' * (-len(buf) % 512) if buf else b'\0' * 512
    d = exFAT.DirectoryEntries(buf, inp['root'])
    passes = []
    for _ in range(2):
        out, st = [], 'end'
        try:
            for e in d.entries():
                if type(e) is exFAT.FileEntry:
                    out.append({'e': 'file', 'del': e.is_deleted, 'dir': e.is_directory, 'name': c21.units(e.name), 'at': c21.stamp(e.atime), 'atz': zone(e.atz), 'mt': c21.stamp(e.mtime), 'mtz': zone(e.mtz), 'ct': c21.stamp(e.ctime), 'ctz': zone(e.ctz),
                                'size': le(e.size, 8), 'valid': le(e.valid_data_length, 8), 'attr': e.attributes, 'first': le(e.first_cluster, 4), 'enc': e.is_encrypted, 'nofat': e.no_fat_chain})
                elif type(e) is exFAT.OrphanEntry:
                    out.append({'e': 'lost', 'name': c21.units(e.name_partial)})
                elif type(e) is exFAT.VolumeLabelEntry:
                    out.append({'e': 'label', 'name': c21.units(e.volume_label)})
                else:
                    out.append({'e': 'map', 'id': e.bitmap_id, 'first': le(e.first_cluster, 4), 'size': le(e.size, 8)})
        except exFAT.DirectoryEntriesException:
            st = 'damaged'
        passes.append({'st': st, 'out': out})
    if passes[0] != passes[1]:
        return {'st': 'a second pass differs'}
    return passes[0]


def gen(rng, tier):
    def text(n):
        return [rng.choice([0x430, 0x4E2D, 32, 46, 0xD83D, 0xDE00, 0xFFFE]) if rng.random() < 0.15 else 97 + rng.randrange(26) for _ in range(n)]
    for _ in range(2500 if tier == 'quick' else 30000):
        slots = []
        cap = 80 if _ % 60 else 260
        want = rng.choice([1, 5, 15, 30, 50]) if cap == 80 else cap
        while len(slots) < want:
            x = rng.random() * (1 if cap == 80 else 0.8)
            if x < 0.8:
                n = rng.choice([1, 4, 14, 15, 16, 29, 30, 31, 60, 255])
                u = text(n)
                if rng.random() < 0.05:
                    u[rng.randrange(n)] = rng.choice([47, 58, 31, 0, 92, 124, 33, 32, 127])
                if rng.random() < 0.03:
                    u = rng.choice([[46], [46, 46], [46, 46, 46], [0]])
                raw = b''.join(v.to_bytes(2, 'little') for v in u)
                tail = rng.choice([b'\0', b'\0', b'\0', b'A', b'*', b'/'])
                parts = [raw[i:i + 30].ljust(30, tail) for i in range(0, len(raw), 30)]
                length = len(u) if rng.random() < 0.9 or cap > 80 else rng.randrange(256)
                sec = [bytes([0xC0, rng.choice([1, 3, 1, 3, 0, 0xFF, 5]) if rng.random() < 0.3 else 1, rng.randrange(256), length]) + rng.randbytes(28)]
                sec += [bytes([0xC1, rng.choice([0, 0, 0, 0, 1])]) + p for p in parts]
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    sec.append(bytes([rng.choice([0xE0, 0xE1, 0xC2, 0xE2, 0xC1, 0xC0])]) + rng.randbytes(31))
                head = bytes([0x85, len(sec), 0, 0]) + struct.pack('<HH', rng.choice([0x20, 0x10, 0x30, 0x21, 0xFFFF, 0]), rng.choice([0, 0, 0x8000, 0x7FFF])) + rng.randbytes(24)
                if rng.random() < 0.6:
                    head = head[:8] + struct.pack('<LLLBBBBB', *([rng.choice([0x52214000, 0x50411883, 0x217B3D00, 0xFF9FBF7D, 0x5A5C8000]) for _ in range(3)] + [rng.randrange(200), rng.randrange(210)] + [rng.choice([0, 0x80, 0x90, 0xF0, 0xBF, 0xC0, 0x40, 0x7F]) for _ in range(3)])) + b'\0' * 7
                fresh = [bytearray(head)] + [bytearray(s) for s in sec]
                y = rng.random() if cap == 80 else 1
                if y < 0.07 and len(fresh) > 3:
                    del fresh[rng.randrange(1, len(fresh))]
                    if rng.random() < 0.5:
                        fresh[0][1] -= 1
                elif y < 0.12:
                    fresh[0][1] = rng.choice([0, 1, 2, 3, 64, 65, 18, len(sec) + 1])
                elif y < 0.17:
                    k = rng.randrange(1, len(fresh))
                    fresh[k][0] ^= rng.choice([0x80, 0x40, 0x20, 1])
                elif y < 0.2:
                    k = rng.randrange(1, len(fresh))
                    fresh.insert(k, bytearray(fresh[k]))
                    fresh[0][1] += 1
                whole = b''.join(bytes(s) for s in fresh)
                fresh[0][2:4] = struct.pack('<H', exfat.checksum16(whole[:32 * (fresh[0][1] + 1)]))
                if rng.random() < 0.07 and cap == 80:
                    fresh[rng.randrange(len(fresh))][rng.randrange(32)] ^= 1 << rng.randrange(8)
                if rng.random() < 0.35:
                    for s in fresh:
                        s[0] &= 0x7F
                    if rng.random() < 0.3:
                        fresh = fresh[rng.randrange(len(fresh)):]
                slots += [list(s) for s in fresh]
            elif x < 0.9:
                for _ in range(rng.choice([1, 2, 3, 16, 17, 18])):
                    slots.append([rng.choice([0x41, 0x41, 0x41, 0xC1]), rng.choice([0, 0, 0, 0, 0, 3])] + list(b''.join(v.to_bytes(2, 'little') for v in text(15))))
            elif x < 0.985:
                slots.append([rng.choice([0x21, 0x22, 0xA1, 0xA2, 0x20, 0xA0, 1, 2, 3, 0x60, 0xE0, 0x40, 0xC0, 0x04, 0x84, 0x7F])] + [rng.randrange(256) for _ in range(31)])
            else:
                slots.append([rng.choice([0, 0x80, 0x81, 0x82, 0x83])] + [rng.randrange(16)] + [rng.randrange(1, 256) for _ in range(30)])
        yield {'slots': slots[:cap], 'root': rng.random() < 0.3}


GENERATORS = {'ExfatDir': gen}
