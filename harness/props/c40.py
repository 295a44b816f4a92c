"""C40: what a volume says of itself in fixed places."""
import io
import random
import struct
from dfir_ntfs import BootSector, ShadowCopy
from dfir_ntfs.addons import FAT, exFAT
from props.c37 import agree as agree37, filetime
import exfat
import vss

ID = 'C40'
BLOCK = 16384
BAD = (FAT.FileSystemException, exFAT.FileSystemException, BootSector.BootSectorException, ShadowCopy.ShadowCopyException)
# Field -> (method, place in a tuple or None, width or kind).
SH = dict(guid=('get_diff_area_guid', None, 'g'), version=('get_version', None, 4), type=('get_type', None, 4), offset1=('get_offset_1', None, 8), offset2=('get_offset_2', None, 8), offset3=('get_offset_3', None, 8))
FATF = dict(jump=('get_bs_jmpboot', None, 'b'), oem=('get_bs_oemname', None, 'b'), sector=('get_bpb_bytspersec', None, 2), cluster=('get_bpb_secperclus', None, 2), reserved=('get_bpb_rsvdseccnt', None, 2), fats=('get_bpb_numfats', None, 1),
            root=('get_bpb_rootentcnt', None, 2), total16=('get_bpb_totsec16', None, 2), media=('get_bpb_media', None, 1), size16=('get_bpb_fatsz16', None, 2), track=('get_bpb_secpertrk', None, 2), heads=('get_bpb_numheads', None, 2),
            hidden=('get_bpb_hiddsec', None, 4), total32=('get_bpb_totsec32', None, 4), size32=('get_bpb_fatsz32', None, 4), active=('get_bpb_extflags', 0, 1), unmirrored=('get_bpb_extflags', 1, 1), fsversion=('get_bpb_fsver', None, 2),
            rootcluster=('get_bpb_rootclus', None, 4), fsinfo=('get_bpb_fsinfo', None, 2), backup=('get_bpb_bkbootsec', None, 2), area=('get_bpb_reserved', None, 'b'), drive=('get_bs_drvnum', None, 1), dirtyflags=('get_bs_dirty_flags', None, 1),
            dirty=('is_volume_dirty', 0, 1), surface=('is_volume_dirty', 1, 1), extended=('get_bs_bootsig', None, 1), id=('get_bs_extfields', 0, 4), label=('get_bs_extfields', 1, 'b'), fstype=('get_bs_extfields', 2, 'b'), total64=('get_bs_totsec64', None, 8))
TAB = dict(media=('get_bpb_media', None, 1), dirty=('is_volume_dirty', None, 1), errors=('are_hard_errors_detected', None, 1))
NEXT = dict(SH, here=('get_volume_offset', None, 8), next=('get_next_volume_offset', None, 8))
M = {
    'f16': FATF, 'f32': FATF, 't12': TAB, 't16': TAB, 't32': TAB,
    'fsi': dict(lead=('get_fsi_signatures', 0, 4), struc=('get_fsi_signatures', 1, 4), trail=('get_fsi_signatures', 2, 4), count=('get_fsi_free_count', None, 4), next=('get_fsi_nxt_free', None, 4), rest=('get_fsi_reserved2', None, 'b')),
    'xb': dict(jump=('get_bs_jmpboot', None, 'b'), partition=('get_partitionoffset', None, 8), length=('get_volumelength', None, 8), fatoffset=('get_fatoffset', None, 4), fatlength=('get_fatlength', None, 4), heap=('get_clusterheapoffset', None, 4),
               clusters=('get_clustercount', None, 4), root=('get_firstclusterofrootdirectory', None, 4), serial=('get_volumeserialnumber', None, 4), major=('get_filesystemrevision', 0, 1), minor=('get_filesystemrevision', 1, 1),
               second=('get_volumeflags', 0, 1), dirty=('get_volumeflags', 1, 1), failure=('get_volumeflags', 2, 1), clear=('get_volumeflags', 3, 1), sector=('get_bytespersector', None, 4), cluster=('get_sectorspercluster', None, 4),
               fats=('get_numberoffats', None, 1), drive=('get_driveselect', None, 1), percent=('get_percentinuse', None, 1), area=('get_reserved', None, 'b')),
    'xo': dict(guid=('get_oem_guid', None, 'g'), **{n: ('get_oem_flash_parameters', i, 4) for i, n in enumerate(['erase', 'page', 'spare', 'access', 'program', 'rcycle', 'wcycle'])}),
    'nb': dict(oem=('get_signature', None, 'b'), total=('get_total_number_of_sectors', None, 8), mft=('get_first_mft_cluster', None, 8), mirror=('get_first_mftmirr_cluster', None, 8), serial=('get_serial_number', None, 8), code=('is_boot_code_present', None, 1)),
    'vs': dict(SH, first=('get_first_control_block_offset', None, 8), maximum=('get_max_diff_area_size', None, 8), volume=('get_volume_guid', None, 'g'), storage=('get_storage_guid', None, 'g'), local=('is_storage_local', None, 1),
               appflags=('get_application_flags', None, 8), freepre=('get_free_space_precopy_percentage', None, 8), hotpre=('get_hot_blocks_precopy_percentage', None, 8), days=('get_hot_blocks_days', None, 4), protection=('get_protection_flags', None, 4)),
    'vc': dict(SH, relative=('get_relative_offset', None, 8), here=('get_volume_offset', None, 8), next=('get_next_control_block_volume_offset', None, 8)),
    'v2': dict(type=('get_item_type', None, 4), priority=('get_snapshot_priority', None, 1), size=('get_volume_size', None, 8), store=('get_store_guid', None, 'g'), position=('get_stack_position', None, 8), flags=('get_flags', None, 8), time=('get_timestamp', None, 'T'),
               unknown=('get_unknown_56', None, 2)),
    'v3': dict(type=('get_item_type', None, 4), diff=('get_diff_area_block_offset', None, 8), store=('get_store_guid', None, 'g'), application=('get_application_information_block_offset', None, 8), location=('get_location_description_block_offset', None, 8),
               bitmap=('get_bitmap_offset', None, 8), reference=('get_file_reference', None, 8), allocation=('get_allocation_size', None, 8), previous=('get_previous_bitmap_offset', None, 8), unknown=('get_unknown_80', None, 4)),
    'va': dict(SH, here=('get_volume_offset', None, 8), body=('get_application_information', None, 'r')),
    'vb': dict(NEXT, body=('get_bitmap', None, 'r')),
    'vd': dict(NEXT, entries=('get_diff_area', None, 'e')),
    'vl': dict(NEXT, places=('get_location_description_items', None, 'p')),
}


def runs(tier):
    return [dict(module='VolumeFields', constants={'Scope': '"%s"' % tier}, workers=6)]


def region(b, rng, bps=512, oem=None):
    """A boot region of exFAT around its first bytes (and the given parameters of the maker)."""
    r = bytearray(rng.randbytes(bps * 12))
    r[:120] = b
    r[510:512] = b'\x55\xaa'
    if oem is not None:
        r[10 * bps:10 * bps + len(oem)] = oem
    r[11 * bps:] = struct.pack('<L', exfat.checksum32(r[:11 * bps])) * (bps // 4)
    return bytes(r)


# A sound boot region for parameters of the maker.
SOUND = bytes(3) + b'EXFAT   ' + bytes(53) + struct.pack('<QQLLLLLLBBHBBBBB7x', 0, 16384, 128, 32, 256, 2000, 5, 1, 0, 1, 0, 9, 3, 2, 128, 255)


def opened(k, b, rng):
    if k in ('f16', 'f32'):
        r = bytearray(rng.randbytes(512))
        r[:len(b)] = b
        if rng.random() < 0.8 or b[0] not in (0xE9, 0xEB):
            r[510:] = b'\x55\xaa'
        return FAT.BSBPB(bytes(r))
    if k == 'fsi':
        return FAT.FSINFO(b[:4] + rng.randbytes(480) + b[4:])
    if k[0] == 't':
        pre = rng.choice([0, 512])
        return FAT.FAT(io.BytesIO(rng.randbytes(pre) + b + rng.randbytes(512 - len(b))), pre, 512, 100, int(k[1:]))
    if k == 'xb':
        return exFAT.BR(region(b, rng, 1 << b[108]))
    if k == 'xo':
        return exFAT.BR(region(SOUND, rng, 512, b))
    if k == 'nb':
        r = bytearray(rng.randbytes(512 * rng.choice([1, 2])))
        r[:80] = b[:80]
        r[510:512] = b[80:82]
        return BootSector.BootSector(bytes(r))
    if k == 'vs':
        r = bytearray(rng.randbytes(8192))
        r[3:7] = rng.choice([b'NTFS', b'ReFS'])
        r[7680:7680 + len(b)] = b
        return ShadowCopy.StartBlock(bytes(r))
    if k in ('v2', 'v3'):
        return (ShadowCopy.ControlBlockItem2 if k == 'v2' else ShadowCopy.ControlBlockItem3)(b)
    c = dict(vc=ShadowCopy.ControlBlock, va=ShadowCopy.ApplicationInformation, vb=ShadowCopy.Bitmap, vd=ShadowCopy.DiffAreaTable, vl=ShadowCopy.LocationDescription)[k]
    return c(b + (bytes if k in ('vd', 'vl') else rng.randbytes)(BLOCK - len(b)))


def told(x, k, n, size):
    m, i, w = M[k][n]
    try:
        v = getattr(x, m)()
        if n == 'guid' and k[0] == 'v' or n in ('volume', 'storage', 'store'):
            if getattr(x, m + '_raw')() != v.bytes_le:
                return 'raw bytes differ'
    except BAD:
        return [-2]
    if i is not None:
        v = v[i]
    if v is None:
        return [-1]
    if w == 'b':
        return list(v)
    if w == 'r':
        return list(v[:size - 128]) if len(v) == BLOCK - 128 else 'cut'
    if w == 'g':
        return list(v.bytes_le)
    if w == 'T':
        return v.isoformat()
    if w == 'e':
        return list(b''.join(struct.pack('<QQQLL', e.original_volume_offset, e.data_block_offset_in_store, e.data_block_volume_offset, e.flags, e.allocation_bitmap) for e in v))
    if w == 'p':
        return list(b''.join(struct.pack('<QQQ', e.volume_offset, e.store_offset, e.size) for e in v))
    try:
        return list(int(v).to_bytes(w, 'little'))
    except OverflowError:
        return 'does not fit: %r' % v


def execute(inp):
    k, b = inp['k'], bytes(inp['b'])
    rng = random.Random(repr(inp))
    try:
        x = opened(k, b, rng)
    except BAD:
        return {'ok': False, 'f': []}
    names = sorted(M[k])
    got = {}
    for rep in range(2):        # in any order, and again
        rng.shuffle(names)
        for n in names:
            v = told(x, k, n, len(b))
            if got.setdefault(n, v) != v:
                return {'ok': True, 'f': 'another answer', 'field': n}
    return {'ok': True, 'f': [{'n': n, 'v': got[n]} for n in sorted(got)]}


def agree(m, inp, want, got):
    return want['ok'] == got.get('ok') and agree37(m, inp, want, got)


def gen(rng, tier):
    def num(w):
        return rng.choice([0, 1, rng.randrange(256 ** w), rng.randrange(256 ** w), 256 ** w - 1]).to_bytes(w, 'little')

    for _ in range(2500 if tier == 'quick' else 40000):
        k = rng.choice(sorted(M))
        if k in ('f16', 'f32'):
            b = bytearray(rng.randbytes(90 if k == 'f32' else 62))
            if rng.random() < 0.5:
                b[0] = rng.choice([0xE9, 0xEB])
            bps, spc, rsvd, fats = rng.choice([512, 512, 1024, 2048, 4096]), rng.choice([1, 2, 4, 8, 64, 128, 256]), rng.choice([1, 2, 32, 65535, rng.randrange(1, 65536)]), rng.choice([1, 2, 2, 3, 255])
            if rng.random() < 0.8:
                b[21] = rng.choice([0xF0, 0xF8, 0xF9, 0xFF, 0xFD])
            root = 0 if k == 'f32' else rng.choice([16, 512, 65520])
            count = rng.choice([65525, 70000, 268000000]) if k == 'f32' else rng.choice([10, 4084, 4085, 65524, 30000])
            size = (65536 if k == 'f32' else 65535) if rng.random() < 0.2 else -(-(count + 2) * 4 // bps)
            size = min(max(1, size), 2 ** 32 - 1 if k == 'f32' else 65535)
            total = rsvd + fats * size + -(-root * 32 // bps) + count * spc + (rng.randrange(spc))
            t16, t32, t64 = (total, int.from_bytes(num(4), 'little'), None) if total < 65536 and k == 'f16' else (0, total, None)
            if total >= 2 ** 32 or (k == 'f32' and rng.random() < 0.15):
                if k == 'f16':
                    continue
                t16, t32, t64 = 0, 0, total
            struct.pack_into('<HBHBHH', b, 11, bps, spc % 256, rsvd, fats, root, t16)
            struct.pack_into('<H', b, 22, size if k == 'f16' else 0)
            struct.pack_into('<L', b, 32, t32)
            o = 64 if k == 'f32' else 36
            b[o + 2] = rng.choice([0x29, 0x29, 0x28, 0, 0x2A, 0xA9])
            if k == 'f32':
                struct.pack_into('<L', b, 36, size)
                b[42:44] = b'\0\0'
                b[44:48] = rng.choice([b'\0\0\0\0', b'\1\0\0\0', b'\2\0\0\0', num(4)])
                b[48:50], b[50:52] = num(2), num(2)
                if t64:
                    b[66] = 0x29
                    struct.pack_into('<Q', b, 82, t64)
        elif k == 'fsi':
            b = bytearray(b'RRaArrAa' + num(4) + num(4) + rng.randbytes(12) + b'\0\0\x55\xaa')
            if rng.random() < 0.2:
                b[rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 28, 29, 30, 31])] ^= rng.choice([1, 32, 128])
        elif k[0] == 't':
            b = rng.randbytes(8)
        elif k == 'xb':
            b = bytearray(SOUND)
            sh, nf = rng.choice([9, 9, 9, 12]), rng.choice([1, 2])
            cs = rng.choice([0, 3, 25 - sh])
            n = rng.choice([2000, 100000])
            fl = -(-(n + 2) * 4 >> sh) + rng.choice([1, 70000])
            fo = rng.choice([24, 128, 4000])
            heap = fo + nf * fl + rng.choice([0, 1, 50])
            n = max(n, (heap >> cs) + 1)
            fl = max(fl, -(-(n + 2) * 4 >> sh) + 1)
            heap = fo + nf * fl
            n = max(n, (heap >> cs) + 1)
            if fl << sh < (n + 2) * 4 or heap >= 2 ** 32:
                continue
            struct.pack_into('<QQLLLLLLBBHBBBBB', b, 64, int.from_bytes(num(8), 'little'), heap + (n << cs) + rng.choice([0, 1, 2 ** 40]), fo, fl, heap, n, rng.choice([2, n + 1, 5]), rng.getrandbits(32),
                             rng.choice([0, 99]), 1, rng.getrandbits(16) & (0xFFFF if nf == 2 else 0xFFFE), sh, cs, nf, rng.getrandbits(8), rng.choice([0, 50, 99, 100, 101, 254, 255]))
            if struct.unpack_from('<Q', b, 72)[0] << sh < 1 << 20:
                continue
            b[0:3], b[113:120] = rng.randbytes(3), rng.randbytes(7)
        elif k == 'xo':
            b = bytearray.fromhex('467e0c0a9933214090c8fa6d389c4ba2') + rng.randbytes(28)
            if rng.random() < 0.3:
                b[rng.randrange(16)] ^= rng.choice([1, 255])
        elif k == 'nb':
            b = bytearray(rng.randbytes(82))
            b[3:11] = b'NTFS    '
            for o in (40, 48, 56, 72):
                b[o:o + 8] = num(8)
            if rng.random() < 0.7:
                b[80:82] = b'\x55\xaa'
            if rng.random() < 0.3:
                b[0:2] = rng.choice([b'\0\0', b'\0\1', b'\1\0'])
            if rng.random() < 0.1:
                b[rng.randrange(3, 11)] ^= rng.choice([1, 32])
        elif k in ('v2', 'v3'):
            b = bytearray(rng.randbytes(128))
            struct.pack_into('<L', b, 0, int(k[1]) if rng.random() < 0.9 else rng.choice([1, 2, 3, 0x200]))
            if k == 'v2':
                b[8:16] = num(8)
                b[48:56] = filetime(rng)
        else:
            b = bytearray(vss.header(dict(vs=1, vc=2, vd=3, va=4, vl=5, vb=6)[k], 0, 0, 0) + rng.randbytes(80))
            b[16:20], b[24:32], b[32:40], b[40:48] = num(4), num(8), num(8), num(8)
            if k == 'vs':
                b[24:48] = struct.pack('<QQQ', 7680, 7680, 0)
                b[48:56] = rng.choice([num(8), struct.pack('<Q', rng.randrange(1 << 50) * BLOCK), bytes(8)])
                b = b[:56] + num(8) + b[64:96] + num(8) + num(8) + num(8) + num(4) + num(4)
                if rng.random() < 0.4:
                    b[80:96] = b[64:80]
                    if rng.random() < 0.5:
                        b[rng.randrange(64, 96)] ^= 1
            elif k == 'vc':
                b[24:32] = rng.choice([num(8), struct.pack('<Q', rng.randrange(1 << 50) * BLOCK)])
            elif k == 'vd':
                for _ in range(rng.choice([0, 1, 3, 20]) if rng.random() < 0.97 else 508):
                    b += struct.pack('<QQQLL', rng.randrange(1 << 49) * BLOCK, rng.getrandbits(64), rng.randrange(1 << 49) * BLOCK, rng.choice([0, 0, 0, 1, 2, 4, 5, 8, 16, 0x10 | 2, 0x80, 0xFC, 0xFE, rng.choice([3, 0x100, 0x80000000])] if rng.random() < 0.1 else [0, 1, 2, 4, 8, 18]), rng.getrandbits(32))
            elif k == 'vl':
                full = rng.random() < 0.03
                for _ in range(677 if full else rng.choice([0, 1, 3, 20])):
                    b += rng.randbytes(24) if full else num(8) + num(8) + num(8)
                if full:
                    b += rng.randbytes(8)
            else:
                b += rng.randbytes(rng.choice([8, 300]))
            if rng.random() < 0.1:
                b[rng.randrange(24)] ^= rng.choice([1, 16])
        yield {'k': k, 'b': list(b)}


GENERATORS = {'VolumeFields': gen}
