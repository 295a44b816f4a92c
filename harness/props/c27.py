"""C27: encoded times, wherever they are met."""
import datetime
import random
import struct
from dfir_ntfs import Attributes, WSL
from dfir_ntfs.addons import FAT, exFAT
import exfat

ID = 'C27'
FAT.WARN_FUNC = lambda *a: None
LIMIT = datetime.datetime.max - datetime.timedelta(microseconds=200)


def runs(tier):
    def job(family, **kw):
        return dict(module='Instants', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=2, heap='3g', **kw)
    return [job('guid')] + [job(x, cases=False) for x in ('file', 'unix', 'fatdate', 'fattime', 'exfat')]


def flat(t):
    if t is None:
        return [-1]
    return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]


def others(rng):
    return struct.pack('<Q', 130000000000000000 + rng.randrange(10 ** 15))


def execute(inp):
    v = bytes(inp['v'])
    rng = random.Random(v)
    got = []
    zone = 1000
    if inp['k'] == 'file':
        for i, name in enumerate(['get_ctime', 'get_mtime', 'get_etime', 'get_atime']):
            q = [others(rng) for _ in range(4)]
            q[i] = v
            times = b''.join(q)
            full = times + rng.randbytes(40)
            got.append(getattr(Attributes.StandardInformation(full), name)())
            got.append(getattr(Attributes.FileName(rng.randbytes(8) + times + rng.randbytes(24) + b'\1\1A\0'), name)())
            got.append(getattr(Attributes.DuplicatedInformation(rng.randbytes(3) + times + rng.randbytes(24), 3), name)())
            for off in range(0, 32, 8):     # part of it, as found in a journal
                for end in (8, 16, 24, 32, 48):
                    if off < end:
                        t = getattr(Attributes.StandardInformationPartial(full[off:end], off), name)()
                        if off <= 8 * i and end >= 8 * i + 8:
                            got.append(t)
                        elif t is not None:
                            return {'at': 'a time which is not there'}
    elif inp['k'] == 'guid':
        got.append(Attributes.ObjectID(v + rng.randbytes(48)).get_timestamp())
        got.append(Attributes.ObjectID(v).get_timestamp())
    elif inp['k'] == 'unix':
        s, n = v[:8], v[8:]
        for i, name in enumerate(['get_atime', 'get_mtime', 'get_chtime']):
            ss = [struct.pack('<Q', 10 ** 9 + rng.randrange(10 ** 8)) for _ in range(3)]
            nn = [struct.pack('<L', rng.randrange(10 ** 9)) for _ in range(3)]
            ss[i], nn[i] = s, n
            got.append(getattr(WSL.LXATTRB(b'\0\0\1\0' + rng.randbytes(16) + b''.join(nn) + b''.join(ss)), name)())
    elif inp['k'] == 'fat':
        cs, t, d = v[:1], v[1:3], v[3:5]
        for i in range(2):
            b = b'NAME    TXT\x20\0' + (cs + t + d if i == 0 else b'\0' + b'\x21\x08\x21\x56') + b'\x21\x56\0\0' + (t + d if i == 1 else b'\x21\x08\x21\x56') + b'\2\0' + b'\0' * 4
            e, = FAT.DirectoryEntries(b.ljust(512, b'\0'), False).entries('ascii')
            x = (e.ctime, e.mtime)[i]
            if i == 1 and x is not None and v[0] <= 199:
                x += datetime.timedelta(milliseconds=10 * v[0])
            got.append(x)
        b = b'NAME    TXT\x20\0\0\x21\x08\x21\x56' + d + b'\0\0\x21\x08\x21\x56\2\0' + b'\0' * 4
        e, = FAT.DirectoryEntries(b.ljust(512, b'\0'), False).entries('ascii')
        # A date alone.
        if got[0] is not None and (e.atime is None or e.atime != got[0].date()):
            return {'at': 'date %r' % e.atime}
    else:
        zs = []
        for i in range(3):
            q = [b'\x21\x08\x21\x56'] * 3
            q[i] = v[1:5]
            c = [b'\0', b'\0']
            if i < 2:
                c[i] = v[0:1]
            z = [b'\x85', b'\x86', b'\x87']
            z[i] = v[5:6]
            b = bytearray(exfat.file_set('Name'))
            b[8:25] = b''.join(q) + b''.join(c) + b''.join(z)
            b[2:4] = struct.pack('<H', exfat.checksum16(b))
            e, = exFAT.DirectoryEntries(bytes(b).ljust(512, b'\0')).entries()
            x = (e.ctime, e.mtime, e.atime)[i]
            if i == 2 and x is not None and v[0] <= 199:
                x += datetime.timedelta(milliseconds=10 * v[0])
            got.append(x)
            zs.append((e.ctz, e.mtz, e.atz)[i])
        if len(set(zs)) != 1:
            return {'at': 'zones %r' % zs}
        zone = 1000 if zs[0] is None else zs[0]
    if any(t != got[0] for t in got):
        return {'at': 'different: %r' % got}
    return {'at': flat(got[0]), 'zone': zone}


def agree(m, inp, want, got):
    a, b = want['at'], got.get('at')
    if inp['k'] in ('fat', 'exfat'):
        return want == got
    if inp['k'] == 'unix' and int.from_bytes(bytes(inp['v'][8:]), 'little') >= 10 ** 9:
        return True     # no such number of nanoseconds
    if not isinstance(b, list):
        return False
    if a == [-1] or b == [-1]:
        return a == b or (a != [-1] and datetime.datetime(*a) > LIMIT)
    x, y = datetime.datetime(*a), datetime.datetime(*b)
    # The precision of a count of microseconds held in double precision.
    tol = 1
    if inp['k'] != 'unix':
        n = (x - datetime.datetime(1582, 10, 15)) // datetime.timedelta(microseconds=1)
        tol = max(1, 1 << max(0, n.bit_length() - 53) >> 1)
    return abs(x - y) <= datetime.timedelta(microseconds=tol)


def gen(rng, tier):
    for _ in range(1500 if tier == 'quick' else 30000):
        k = rng.choice(['file', 'file', 'guid', 'unix', 'fat', 'exfat'])
        if k == 'file':
            v = struct.pack('<Q', rng.choice([rng.randrange(1 << 64), rng.randrange(2650467744000000000), rng.randrange(116444736000000000, 140000000000000000), 2650467744000000000 + rng.randrange(10 ** 9), 2650467744000000000 - rng.randrange(10 ** 9)]))
        elif k == 'guid':
            g = bytearray(rng.randbytes(16))
            if rng.random() < 0.8:
                g[7] = 0x10 | rng.choice([1, 1, rng.randrange(16)])
                g[8] = rng.choice([0x80, 0xBF, 0x90])
            v = bytes(g)
        elif k == 'unix':
            v = struct.pack('<QL', rng.choice([rng.randrange(1 << 64), rng.randrange(253402300800), rng.randrange(2 * 10 ** 9), 253402300799, 253402300800, 2 ** 63, 2 ** 64 - 1]), rng.randrange(10 ** 9))
        elif k == 'fat':
            v = rng.randbytes(5)
        else:
            v = rng.randbytes(6)
        yield {'k': k, 'v': list(v)}


GENERATORS = {'Instants': gen}
