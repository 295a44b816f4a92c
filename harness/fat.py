"""Writes FAT and exFAT volumes, sector by sector: the environment of the Fat* and Exfat* specifications, in bytes."""
import struct


class Sparse(object):
    """A read-only file object; a sector that was not set holds its own number."""

    def __init__(self, length, base=0):
        self.sectors, self.length, self.base, self._p = {}, length, base, 0

    def pattern(self, s):
        return struct.pack('<QQ', s + 1, 0xA5A5A5A55A5A5A5A) * 32

    def sector(self, s):
        b = self.sectors.get(s)
        return self.pattern(s) if b is None else bytes(b)

    def put(self, offset, data):
        """Set bytes (of the volume)."""
        at = 0
        while at < len(data):
            s, o = divmod(offset + at, 512)
            n = min(512 - o, len(data) - at)
            b = self.sectors.get(s)
            if b is None:
                b = self.sectors[s] = bytearray(self.pattern(s))
            b[o:o + n] = data[at:at + n]
            at += n

    def zero(self, offset, size):
        for s in range(offset // 512, (offset + size) // 512):
            self.sectors[s] = bytearray(512)

    def get(self, offset, size):
        out = []
        at = offset
        while at < offset + size:
            s, o = divmod(at, 512)
            n = min(512 - o, offset + size - at)
            out.append(self.sector(s)[o:o + n])
            at += n
        return b''.join(out)

    def seek(self, offset, whence=0):
        p = offset if whence == 0 else self._p + offset if whence == 1 else self.base + self.length + offset
        if p < 0:
            raise OSError(22, 'Invalid argument')
        if p >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        self._p = p
        return p

    def tell(self):
        return self._p

    def read(self, size=-1):
        end = self.base + self.length
        size = max(0, end - self._p) if size is None or size < 0 else max(0, min(size, end - self._p))
        out = b''
        if self._p < self.base:
            out = b'\xEE' * min(size, self.base - self._p)
        out += self.get(self._p + len(out) - self.base, size - len(out))
        self._p += len(out)
        return out

    def close(self):
        pass


def boot(x, rng, root=2):
    """A boot sector from the fields of FatVolume."""
    b = bytearray(rng.randbytes(512))
    b[0:3] = b'\xEB\x3C\x90' if x['jmp'] == 1 else b'\xE9\x00\x01' if x['jmp'] == 2 else b'\x00\x00\x00'
    b[11:36] = struct.pack('<HBHBHHBHHHLL', x['bps'], x['spc'], x['rsvd'], x['nf'], x['root'], x['t16'], 0xF8, x['f16'], 63, 255, 0, x['t32'])
    if x['f16'] == 0:
        b[36:52] = struct.pack('<LHHLHH', x['f32'], x['act'] | (0x80 if x['mir'] else 0) | rng.choice([0, 0x0F70 & 0x7F70]), x['ver'], root, 1, 6)
        b[64:67] = bytes([0x80, 0, x['bsig']])
        b[82:90] = struct.pack('<Q', x['t64'])
    else:
        b[36:39] = bytes([0x80, 0, x['bsig']])
    b[510:512] = b'\x55\xAA' if x['mark'] else rng.choice([b'\0\0', b'\xAA\x55', b'\x55\x00'])
    return bytes(b)


def put_fat(f, at, kind, elements, rng):
    """Set elements of a table which starts at this offset."""
    for c, v in elements:
        if kind == 32:
            f.put(at + 4 * c, struct.pack('<L', v | (rng.getrandbits(4) << 28)))
        elif kind == 16:
            f.put(at + 2 * c, struct.pack('<H', v))
        else:
            o = at + c + c // 2
            w = struct.unpack('<H', f.get(o, 2))[0]
            w = (w & 0xF000) | v if c % 2 == 0 else (w & 0x000F) | (v << 4)
            f.put(o, struct.pack('<H', w))
