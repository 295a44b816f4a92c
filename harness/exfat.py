"""Writes exFAT boot regions, tables and entry sets: the environment of the Exfat* specifications, in bytes."""
import struct


def checksum32(data):
    c = 0
    for i, x in enumerate(data):
        if i in (106, 107, 112):
            continue
        c = (((c << 31) | (c >> 1)) + x) & 0xFFFFFFFF
    return c


def checksum16(data):
    c = 0
    for i, x in enumerate(data):
        if i in (2, 3):
            continue
        c = (((c << 15) | (c >> 1)) + x) & 0xFFFF
    return c


def region(buf, at, r, rng):
    """Put a boot region into a buffer: all but the checksum."""
    s = 1 << r['ss']
    b = bytearray(rng.randbytes(512))
    b[0:3] = b'\xEB\x76\x90'
    b[3:11] = b'EXFAT   '
    b[11:64] = b'\0' * 53
    b[64:120] = struct.pack('<QQLLLLLLBBHBBBBB7s', rng.getrandbits(30), r['vlen'], r['fo'], r['fl'], r['heap'], r['count'], r['root'], rng.getrandbits(32), r['minor'], r['major'],
                            (r['act'] & 1) | rng.choice([0, 2, 4, 8]), r['ss'], r['sc'], r['nf'], 0x80, rng.choice([0, 50, 255]), b'\0' * 7)
    b[510:512] = b'\x55\xAA'
    if r['mark'] == 'name':
        b[3:11] = rng.choice([b'EXFAT  \0', b'NTFS    ', b'exFAT   '])
    if r['mark'] == 'sig':
        b[510:512] = rng.choice([b'\0\0', b'\xAA\x55'])
    if r['mark'] == 'zero':
        b[rng.randrange(11, 64)] = 1
    buf[at:at + 512] = b
    if 9 <= r['ss'] <= 12:
        for k in range(1, 9):
            buf[at + k * s + s - 4:at + k * s + s] = b'\0\0\x55\xAA'


def seal(buf, at, r, rng):
    """The checksum of a boot region, and what happened to it afterwards."""
    if not 9 <= r['ss'] <= 12:
        return
    s = 1 << r['ss']
    c = checksum32(buf[at:at + 11 * s])
    x = [c] * (s // 4)
    if r['mark'] == 'copy2':
        x[1] ^= 1
    if r['mark'] == 'copy3':
        x[2] ^= 0x1000000
    buf[at + 11 * s:at + 12 * s] = struct.pack('<%dL' % len(x), *x)
    if r['flip'] >= 0:
        buf[at + r['flip']] ^= 0x80


def regions(three, rng):
    """The beginning of a volume, with boot regions at its three places."""
    buf = bytearray(rng.randbytes(49152 * 2))
    here = [(at, r) for at, r in zip([0, 6144, 49152], three) if r['mark'] != 'none']
    for at, r in here:
        region(buf, at, r, rng)
    if here and here[0][0] == 0 and here[0][1]['ss'] > 10:
        here.append(here.pop(0))
    for at, r in here:
        seal(buf, at, r, rng)
    return [(at, bytes(buf[at:at + (12 << r['ss'] if 9 <= r['ss'] <= 12 else 512)])) for at, r in zip([0, 6144, 49152], three) if r['mark'] != 'none']


def put_fat(f, at, elements, limit):
    for c, v in elements:
        if 0 <= c and 4 * c + 4 <= limit:
            f.put(at + 4 * c, struct.pack('<L', v & 0xFFFFFFFF))


def bitmap_entry(n, first, size, rng):
    return bytes([0x81, n | rng.choice([0, 2, 0x80])]) + rng.randbytes(18) + struct.pack('<LQ', first & 0xFFFFFFFF, size)


def file_set(name, attr=0x20, first=0, size=0, nofat=False, deleted=False, mtime=0x52214000, extra=b'', length=None, valid=None, times=None, flags=0):
    """A whole entry set."""
    raw = name.encode('utf-16le', 'surrogatepass')
    n = len(raw) // 2
    parts = [raw[i:i + 30].ljust(30, b'\0') for i in range(0, len(raw), 30)]
    sec = [bytes([0xC0, 3 if nofat else 1, 0, n if length is None else length]) + struct.pack('<HHQLLQ', 0, 0, size if valid is None else valid, 0, first & 0xFFFFFFFF, size)]
    sec += [b'\xC1\0' + p for p in parts]
    c, m, a, c10, m10, cz, mz, az = times or (0x52214000, mtime, 0x52214000, 0, 0, 0x80, 0x80, 0x80)
    head = bytes([0x85, len(sec) + len(extra) // 32, 0, 0]) + struct.pack('<HHLLLBBBBB', attr, flags, c, m, a, c10, m10, cz, mz, az) + b'\0' * 7
    b = bytearray(head + b''.join(sec) + extra)
    b[2:4] = struct.pack('<H', checksum16(b))
    if deleted:
        for i in range(0, len(b), 32):
            b[i] &= 0x7F
    return bytes(b)
