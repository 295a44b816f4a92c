"""Encoders: abstract NTFS structures -> bytes. Independent of the code under test."""
import struct


def align8(x):
    return (x + 7) // 8 * 8


def protect(buf, uoff, usn=b'\x01\x02'):
    """Write an update sequence array into a finished multi-sector buffer."""
    buf = bytearray(buf)
    n = len(buf) // 512
    struct.pack_into('<HH', buf, 4, uoff, n + 1)
    arr = bytearray(usn)
    for s in range(1, n + 1):
        arr += buf[s * 512 - 2:s * 512]
        buf[s * 512 - 2:s * 512] = usn
    buf[uoff:uoff + len(arr)] = arr
    return bytes(buf)


def frs_header(size, uoff, n, lsn=0, seq=1, links=1, fao=56, flags=1, ffb=0, base=0, nexti=5, number=0, sig=b'FILE', declared=None):
    h = bytearray(size)
    struct.pack_into('<4sHHQHHHHLLQH', h, 0, sig, uoff, n + 1, lsn, seq, links, fao, flags, ffb, size if declared is None else declared, base, nexti)
    if uoff >= 48:
        struct.pack_into('<HL', h, 42, (number >> 32) & 0xffff, number & 0xffffffff)
    return h


def resident(type_code, value, name=None, flags=0, instance=0, rflags=0):
    nm = (name or '').encode('utf-16le')
    noff = 24
    voff = align8(24 + len(nm))
    total = align8(voff + len(value))
    b = bytearray(total)
    struct.pack_into('<LLBBHHH', b, 0, type_code, total, 0, len(nm) // 2, noff if nm else 24, flags, instance)
    struct.pack_into('<LHBB', b, 16, len(value), voff, rflags, 0)
    b[noff:noff + len(nm)] = nm
    b[voff:voff + len(value)] = value
    return bytes(b)


def nonresident(type_code, pairs, lowest, highest, file_size, name=None, alloc=None, valid=None, flags=0, instance=0):
    nm = (name or '').encode('utf-16le')
    noff = 64
    moff = align8(64 + len(nm))
    total = align8(moff + len(pairs))
    b = bytearray(total)
    struct.pack_into('<LLBBHHH', b, 0, type_code, total, 1, len(nm) // 2, noff if nm else 64, flags, instance)
    struct.pack_into('<QQHB5sqqq', b, 16, lowest, highest, moff, 0, b'', max(file_size, alloc or 0), file_size, file_size if valid is None else valid)
    b[noff:noff + len(nm)] = nm
    b[moff:moff + len(pairs)] = pairs
    return bytes(b)


def frs(attrs, size=1024, number=0, seq=1, in_use=True, directory=False, base=0, uoff=48, usn=b'\x01\x02', lsn=0, flags=None, slack=b'', sig=b'FILE', links=1):
    n = size // 512
    fao = align8(uoff + 2 * (n + 1))
    body = b''.join(attrs) + struct.pack('<LL', 0xFFFFFFFF, 0)
    ffb = fao + len(body)
    assert ffb <= size, (ffb, size)
    fl = flags if flags is not None else (1 if in_use else 0) | (2 if directory else 0)
    buf = frs_header(size, uoff, n, lsn=lsn, seq=seq, fao=fao, flags=fl, ffb=ffb, base=base, number=number, sig=sig, links=links)
    buf[fao:fao + len(body)] = body
    if slack:
        buf[ffb:ffb + len(slack)] = slack[:size - ffb]
    return protect(buf, uoff, usn)


def enc_int(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, 'little', signed=True)


def pairs(runs):
    """[(lcn or None, count), ...] -> mapping pairs."""
    out, cur = b'', 0
    for lcn, cnt in runs:
        c = enc_int(cnt)
        if lcn is None:
            o = b''
        else:
            o = enc_int(lcn - cur)
            cur = lcn
        out += bytes([len(o) << 4 | len(c)]) + c + o
    return out + b'\0'


FAR = 2000000000      # a number FAR + k stands for 2**32 + k: a file number has 48 bits


def ref(number, seq):
    return (seq << 48) | (number - FAR + (1 << 32) if number >= FAR else number)


def file_name(parent, name, flags=1, times=(0x01D5000000000000,) * 4, alloc=0, size=0, attrs=0x20, ea=0):
    nm = name.encode('utf-16le')
    return struct.pack('<QQQQQQQLLBB', parent, times[0], times[1], times[2], times[3], alloc, size, attrs, ea, len(nm) // 2, flags) + nm


def boot_sector(bps=512, spc=8, total=1 << 20, mft=4, mirr=2, frs_code=0xF6, idx_code=1, oem=b'NTFS    ', serial=1):
    b = bytearray(512)
    b[0:3] = b'\xEB\x52\x90'
    b[3:11] = oem
    struct.pack_into('<HB', b, 11, bps, spc)
    struct.pack_into('<QQQBxxxBxxxQ', b, 40, total, mft, mirr, frs_code, idx_code, serial)
    b[510:512] = b'\x55\xAA'
    return bytes(b)


def volume_info(major=3, minor=1, flags=0):
    return struct.pack('<QBBH', 0, major, minor, flags)


def system_records(size=1024, usn=b'\x01\x02'):
    """Minimal record 3 ($Volume) every $MFT needs."""
    return resident(0x70, volume_info())
