"""Abstract $MFT (see spec/Mft.tla) -> bytes."""
import struct
import ntfs
from lib import ReadOnlyFile

MARK = 0x100   # the attribute type carrying the number of the segment


def bad_segment(k, size, raw):
    """A segment that fails its own checks, in one of several ways."""
    b = bytearray(raw)
    w = k % 4
    if w == 0:
        return bytes(size)
    if w == 1:
        b[0:4] = b'FILF'
    elif w == 2:
        b[510] ^= 0x40            # torn in the used part
    else:
        struct.pack_into('<L', b, 24, size + 8)  # impossible first free byte
    return bytes(b)


def lsn(k):
    return (k + 1) << 40 | 0x1000 + 8 * k


def build(segs, size=1024, short=False, tail=0, text=lambda nm: ''.join(map(chr, nm)), extra=None, version=(3, 1), volume=True):
    out = []
    for k, s in enumerate(segs):
        attrs = []
        h = k * 7 + s['seq'] * 3 + len(s['names'])
        if h % 3 == 0:      # a list of attributes which lies outside of the record
            attrs.append(ntfs.nonresident(0x20, b'\x11\x01\x09\0', 0, 0, 100))
        for nm in s['names']:
            attrs.append(ntfs.resident(0x30, ntfs.file_name(ntfs.ref(nm['pn'], nm['ps']), text(nm['nm']), flags=nm['fl'])))
        if h % 4 == 1:
            attrs.append(ntfs.nonresident(0x50, b'\x11\x01\x0a\0', 0, 0, 200))
        if k == 3 and volume:
            attrs.append(ntfs.resident(0x70, ntfs.volume_info(*version)))
        attrs.extend((extra or {}).get(k, []))
        attrs.append(ntfs.resident(MARK, struct.pack('<Q', k)))
        raw = ntfs.frs(attrs, size=size, number=k if not s['bn'] and not s['bs'] or h % 2 else h * 1000003, lsn=lsn(k), seq=s['seq'], flags=int(bool(s['use'])) | 2 * int(bool(s['dir'])) | (4 if h % 5 == 2 else 0) | (8 if h % 7 == 3 else 0), base=ntfs.ref(s['bn'], s['bs']), uoff=42 if short else 48, usn=bytes([k % 251 + 1, 7]))
        out.append(raw if s['v'] else bad_segment(k, size, raw))
    data = b''.join(out)
    if tail:
        data += out[0][:tail]
    return data


def marks(record):
    """The segments a record is made of, in the order their attributes are reported."""
    return [struct.unpack('<Q', bytes(a.value))[0] for a in record.attributes() if a.type_code == MARK]


def open_file(data):
    return ReadOnlyFile(data)
