"""C37: fields of records, at their places."""
import datetime
import random
import struct
from dfir_ntfs import Attributes, LogFile, MFT, USN, WSL
import ntfs
from props.c10 import units
from props.c27 import LIMIT

ID = 'C37'
SIZE = dict(frs=48, si=72, sip=32, di=56, fn=70, oid=64, vi=12, vn=8, al=32, ir=32, ib=40, ie=16, rp=40, eai=8, lxb=56, u2=64, u3=80, u4=80, lrh=48, lp=64, rs=30, ra=44, cr=40, nra=112, nlr=48, oa1=40, oa0=44, an=12)
TIMES = {'ctime', 'mtime', 'etime', 'atime', 'time', 'autime', 'mutime', 'chutime'}
H = {'first': 'get_first_index_entry', 'free': 'get_first_free_byte', 'room': 'get_bytes_available', 'ihflags': 'get_flags'}
# Field -> (method, width in bytes, signed).
M = {
    'frs': dict(lsn=('get_logfile_sequence_number', 8), sequence=('get_sequence_number', 2), links=('get_reference_count', 2), attribute=('get_first_attribute_offset', 2), flags=('get_flags', 2), inuse=('is_in_use', 1), free=('get_first_free_byte_offset', 4),
                size=('get_file_record_segment_size', 4), base=('get_base_file_record_segment', 8), isbase=('is_base_file_record_segment', 1), instance=('get_next_attribute_instance', 2), number=('get_master_file_table_number', 6)),
    'si': dict(attributes=('get_file_attributes', 4), versions=('get_maximum_versions', 4), version=('get_version_number', 4), extra=('get_extra_flags', 4), case=('is_case_sensitive', 1), reserve=('get_storage_reserve_id', 1),
               folder=('get_known_folder_information', 1), trust=('get_trust_level', 1), owner=('get_owner_id', 4), security=('get_security_id', 4), quota=('get_quota_charged', 8), usn=('get_usn', 8), **{'class': ('get_class_id', 4)}),
    'sip': {},
    'di': dict(alloc=('get_allocated_length', 8, 1), size=('get_file_size', 8, 1), attributes=('get_file_attributes', 4), packed=('get_packed_ea_size', 2), difference=('get_unpacked_ea_size_difference', 2)),
    'fn': dict(parent=('get_parent_directory', 8), length=('get_file_name_length', 1), flags=('get_flags', 1), name=('get_file_name', 't')),
    'oid': dict(id=('get_object_id', 'g'), rest=('get_extra_data', 'b')),
    'vi': dict(major=('get_major_version', 1), minor=('get_minor_version', 1), flags=('get_flags', 2)),
    'vn': dict(name=('get_name', 't')),
    'al': dict(compacted=('get_last_compacted_size', 4)),
    'ir': dict(type=('get_indexed_attribute_type_code', 4), rule=('get_collation_rule', 4), bytes=('get_bytes_per_index_buffer', 4), blocks=('get_blocks_per_index_buffer', 4)),
    'ib': dict(lsn=('get_logfile_sequence_number', 8), block=('get_this_block', 8)),
    'ie': dict(reference=('get_file_reference', 8), length=('get_length', 2), alength=('get_attribute_length', 2), flags=('get_flags', 2)),
    'rp': dict(tag=('get_reparse_tag', 4), microsoft=('is_reparse_tag_microsoft', 1), dlength=('get_reparse_data_length', 2), guid=('get_reparse_guid', 'g'), buffer=('get_reparse_buffer', 'b')),
    'eai': dict(packed=('get_packed_ea_size', 2), need=('get_need_ea_count', 2), unpacked=('get_unpacked_ea_size', 4)),
    'lxb': dict(mode=('get_mode', 4), uid=('get_uid', 4), gid=('get_gid', 4), rdev=('get_rdev', 4), autime=('get_atime', 'T'), mutime=('get_mtime', 'T'), chutime=('get_chtime', 'T')),
    'lrh': dict(lsn=('get_this_lsn', 8), previous=('get_client_previous_lsn', 8), undonext=('get_client_undo_next_lsn', 8), length=('get_client_data_length', 4), client=('get_client_id', 4), type=('get_record_type', 4), transaction=('get_transaction_id', 4), flags=('get_flags', 2)),
    'lp': dict(last=('get_last_lsn', 8), offset11=('get_file_offset_11', 8, 1), flags=('get_flags', 4), count=('get_page_count', 2), position=('get_page_position', 2), next=('get_next_record_offset', 2), end=('get_last_end_lsn', 8), offset2x=('get_file_offset_2x', 4)),
    'rs': dict(chkdsk=('get_chkdsk_lsn', 8), syspage=('get_system_page_size', 4), logpage=('get_log_page_size', 4), roffset=('get_restart_offset', 2), minor=('get_minor_version', 2), major=('get_major_version', 2)),
    'ra': dict(current=('get_current_lsn', 8), clients=('get_log_clients', 2), freelist=('get_client_free_list', 2), uselist=('get_client_in_use_list', 2), flags=('get_flags', 2), bits=('get_sequence_number_bits', 4), length=('get_restart_area_length', 2),
               array=('get_client_array_offset', 2), fsize=('get_file_size', 8, 1), lastlength=('get_last_lsn_data_length', 4), header=('get_record_header_length', 2), data=('get_log_page_data_offset', 2), revision=('get_revision_number', 4)),
    'cr': dict(oldest=('get_oldest_lsn', 8), restart=('get_client_restart_lsn', 8), prev=('get_prev_client', 2), next=('get_next_client', 2), sequence=('get_sequence_number', 2), nlength=('get_client_name_length', 4), name=('get_client_name', 't')),
    'nra': dict(major=('get_major_version', 4), minor=('get_minor_version', 4), start=('get_start_of_checkpoint_lsn', 8), oatlsn=('get_open_attribute_table_lsn', 8), anlsn=('get_attribute_names_lsn', 8), dplsn=('get_dirty_page_table_lsn', 8),
                ttlsn=('get_transaction_table_lsn', 8), oatlen=('get_open_attribute_table_length', 4), anlen=('get_attribute_names_length', 4), dplen=('get_dirty_page_table_length', 4), ttlen=('get_transaction_table_length', 4),
                usnstart=('get_usn_journal_restart_offset', 8, 1), lastlsn=('get_last_lsn', 8), cluster=('get_bytes_per_cluster', 4), journal=('get_usn_journal_reference', 8), usnbase=('get_usn_base', 8, 1), oldest=('get_oldest_lsn', 8)),
    'nlr': dict(redo=('get_redo_operation', 2), undo=('get_undo_operation', 2), redooff=('get_redo_offset', 2), redolen=('get_redo_length', 2), undooff=('get_undo_offset', 2), undolen=('get_undo_length', 2), target=('get_target_attribute', 2),
                lcns=('get_lcns_to_follow', 2), recoff=('get_record_offset', 2), attroff=('get_attribute_offset', 2), cbo=('get_cluster_block_offset', 2), tbs=('get_target_block_size', 2), vcn=('get_target_vcn', 8, 1), lcnlist=('get_lcns_for_page', 'l'),
                redodata=('get_redo_data', 'b'), undodata=('get_undo_data', 'b')),
    'oa1': dict(free=('get_allocated_or_next_free', 4), ibuffer=('get_bytes_per_index_buffer', 4), type=('get_attribute_type_code', 4), reference=('get_file_reference', 8), lsn=('get_lsn_of_open_record', 8)),
    'oa0': dict(free=('get_allocated_or_next_free', 4), ibuffer=('get_bytes_per_index_buffer', 4), type=('get_attribute_type_code', 4), reference=('get_file_reference', 8), lsn=('get_lsn_of_open_record', 8), index=('get_table_index', 4)),
    'an': dict(index=('get_index', 2), length=('get_name_length', 2), name=('get_name', 't')),
}
U = dict(length=('get_record_length', 4), major=('get_major_version', 2), minor=('get_minor_version', 2), usn=('get_usn', 8), reason=('get_reason', 4), source=('get_source_info', 4))
N = dict(time=('get_timestamp', 'T'), security=('get_security_id', 4), attributes=('get_file_attributes', 4), nlength=('get_file_name_length', 2), noffset=('get_file_name_offset', 2))
M['u2'] = dict(U, **N, reference=('get_file_reference_number', 8), parent=('get_parent_file_reference_number', 8))
M['u3'] = dict(U, **N, reference=('get_file_reference_number', 16), parent=('get_parent_file_reference_number', 16))
M['u4'] = dict(U, reference=('get_file_reference_number', 16), parent=('get_parent_file_reference_number', 16), remaining=('get_remaining_extents', 4), extents=('get_number_of_extents', 2), esize=('get_extent_size', 2))
for k in ('si', 'sip', 'di', 'fn'):
    M[k].update({t: ('get_' + t, 'T') for t in ('ctime', 'mtime', 'etime', 'atime')})
M['fn'].update({k: v for k, v in M['di'].items() if k not in M['fn']})
# Names and order of the fields, as in the specification.
ORDER = {}


def runs(tier):
    return [dict(module='Records', constants={'Scope': '"%s"' % tier}, workers=6)]


def filler(rng, n):
    return bytes(rng.randrange(1, 255) for _ in range(n))


def opened(k, b, x, rng):
    """The object that reads the record b of kind k; its surroundings are arbitrary."""
    A = Attributes
    wrap = rng.choice([bytes, bytearray])
    if k == 'frs':
        size = int.from_bytes(b[28:32], 'little')
        r = bytearray(b) + filler(rng, size - len(b))
        r[0:4] = b'FILE'
        return MFT.FileRecordSegment(wrap(ntfs.protect(r, int.from_bytes(b[4:6], 'little'), b'\x07\x09')), True, x)
    if k == 'sip':
        return A.StandardInformationPartial(bytes(b[x:]), x)    # the offset is of the part
    if k == 'di':
        pre = rng.choice([0, 3, 8])
        return A.DuplicatedInformation(wrap(filler(rng, pre) + b + filler(rng, rng.choice([0, 9]))), pre)
    if k == 'lp':
        p = bytearray(b) + filler(rng, 4096 - 64)
        p[0:4] = rng.choice([b'RCRD', b'CHKD'])
        return LogFile.LogRecordPage(ntfs.protect(p, 40 if b[4] == 40 else b[4], b'\x07\x09'), 5, 64)
    if k == 'rs':
        p = bytearray(b) + bytes(4096 - 30)
        p[0:4] = rng.choice([b'RSTR', b'CHKD'])
        p[64:64 + 44] = struct.pack('<QHHHHLHHqLHHL', 1, 1, 0xFFFF, 0, 0, 40, 224, 64, 4096, 0, 48, 64, 0)
        return LogFile.RestartPage(ntfs.protect(p, 30, b'\x07\x09'))
    if k == 'ra':
        return LogFile.RestartArea(wrap(b + filler(rng, 400)), 4096)
    if k == 'cr':
        return LogFile.ClientRecord(wrap(b + bytes(160 - len(b))))
    if k == 'lrh':
        return LogFile.LogRecordHeader(wrap(b + filler(rng, rng.choice([0, 8, 100]))), rng.choice([None, 48]))
    if k == 'nra':
        return LogFile.NTFSRestartArea(wrap(b), 77)
    if k == 'nlr':
        return LogFile.NTFSLogRecord(wrap(b), 77, 78, 4096)
    if k in ('oa0', 'oa1', 'an'):
        return {'oa0': LogFile.OpenAttributeEntry0, 'oa1': LogFile.OpenAttributeEntry1, 'an': LogFile.AttributeNameEntry}[k](wrap(b + (filler(rng, rng.choice([0, 30])) if k != 'an' else b'')))
    if k in ('u2', 'u3', 'u4'):
        return USN.GetUsnRecord(wrap(b + filler(rng, rng.choice([0, 16]))))
    if k == 'lxb':
        return WSL.LXATTRB(wrap(b))
    c = dict(si=A.StandardInformation, fn=A.FileName, oid=A.ObjectID, vi=A.VolumeInformation, vn=A.VolumeName, al=A.AttributeList, ir=A.IndexRoot, ib=A.IndexBuffer, ie=A.IndexEntry, rp=A.ReparsePoint, eai=A.EAInformation)[k]
    if k in ('si', 'oid', 'vn', 'al', 'rp', 'fn'):
        return c(wrap(b) if k != 'rp' else bytes(b))
    return c(wrap(b + filler(rng, rng.choice([0, 5, 32]))))


def told(x, k, n):
    if n in H and k in ('ir', 'ib'):
        return list(getattr(x.get_index_header(), H[n])().to_bytes(1 if n == 'ihflags' else 4, 'little'))
    m = M[k][n]
    w = m[1]
    try:
        v = getattr(x, m[0])()
    except LogFile.ClientException:
        return [-2]
    if v is None:
        return [-1]
    if w == 't':
        return units(v)
    if w == 'b':
        return list(v)
    if w == 'g':
        return list(v.bytes_le)
    if w == 'T':
        return v.isoformat()
    if w == 'l':
        return [b for q in v for b in q.to_bytes(8, 'little', signed=True)]
    try:
        return list(int(v).to_bytes(w, 'little', signed=len(m) > 2))
    except OverflowError:
        return 'does not fit: %r' % v


def execute(inp):
    k, b = inp['k'], bytes(inp['b'])
    rng = random.Random(repr(inp))
    names = ORDER.get(k)
    if names is None:
        names = ORDER[k] = sorted(list(M[k]) + (list(H) if k in ('ir', 'ib') else []))
    x = opened(k, b, inp['x'], rng)
    got = {}
    for rep in range(2):        # in any order, and again
        rng.shuffle(names)
        for n in names:
            v = told(x, k, n)
            if got.setdefault(n, v) != v:
                return {'f': 'another answer', 'field': n}
    return {'f': [{'n': n, 'v': got[n]} for n in sorted(got)]}


def instant(n, v):
    """The instant, to the microsecond, that the bytes of a time stand for."""
    if n.endswith('utime'):
        s, ns = int.from_bytes(bytes(v[:8]), 'little'), int.from_bytes(bytes(v[8:]), 'little')
        if ns >= 10 ** 9:
            return True
        base, us = datetime.datetime(1970, 1, 1), s * 10 ** 6 + ns // 1000
    else:
        base, us = datetime.datetime(1601, 1, 1), int.from_bytes(bytes(v), 'little') // 10
    try:
        return base + datetime.timedelta(microseconds=us)
    except OverflowError:
        return None


def agree(m, inp, want, got):
    if not isinstance(got.get('f'), list):
        return False
    w = {x['n']: x['v'] for x in want['f']}
    g = {x['n']: x['v'] for x in got['f']}
    if set(w) != set(g):
        return False
    for n in w:
        if n not in TIMES or w[n] == [-1]:
            if w[n] != g[n]:
                return False
            continue
        a = instant(n, w[n])
        if a is True:
            continue
        if a is None or g[n] == [-1]:
            if g[n] != [-1] or (a is not None and a <= LIMIT):
                return False
            continue
        tol = max(1, 1 << max(0, ((a - datetime.datetime(1582, 10, 15)) // datetime.timedelta(microseconds=1)).bit_length() - 53) >> 1)
        if not isinstance(g[n], str) or abs(datetime.datetime.fromisoformat(g[n]) - a) > datetime.timedelta(microseconds=tol):
            return False
    return True


def filetime(rng):
    return struct.pack('<Q', rng.choice([rng.randrange(116444736000000000, 140000000000000000), rng.randrange(2650467744000000000), rng.randrange(1 << 64)]))


def gen(rng, tier):
    for _ in range(3000 if tier == 'quick' else 60000):
        k = rng.choice(sorted(SIZE))
        n = SIZE[k]
        b = bytearray(rng.choice([rng.randbytes(n), bytes(rng.choice([0, 0, 255, rng.randrange(256)]) for _ in range(n))]))
        x = 0
        if k == 'frs':
            short = rng.random() < 0.3
            sz = rng.choice([1024, 4096])
            uo = rng.choice([42, 44, 46]) if short else rng.choice([48, 48, 56])
            fa = -(-(uo + 2 * (sz // 512 + 1)) // 8) * 8 + rng.choice([0, 8])
            struct.pack_into('<HH', b, 4, uo, sz // 512 + 1)
            struct.pack_into('<H', b, 20, fa)
            struct.pack_into('<LL', b, 24, rng.choice([fa + 8, sz, rng.randrange(fa, sz)]), sz)
            x = rng.randrange(65536)
        elif k in ('si', 'sip', 'di', 'fn', 'lxb', 'u2', 'u3'):
            o = dict(si=0, sip=0, di=0, fn=8, u2=32, u3=48, lxb=n)[k]
            for i in range(1 if k[0] == 'u' else 4):
                if k != 'lxb' and rng.random() < 0.8:
                    b[o + 8 * i:o + 8 * i + 8] = filetime(rng)
            if k == 'si':
                b = b[:rng.choice([48, 72, 72, rng.randrange(48, 80)])]
            elif k == 'sip':
                x = rng.choice([0, 8, 16, 24])
                b = bytearray(x) + b[x:] + rng.randbytes(rng.choice([0, 0, 40]))
                b = b[:rng.choice([len(b), rng.randrange(x, len(b) + 1)])]
            elif k == 'fn':
                m = rng.choice([0, 1, 2, 12, 255])
                b = b[:64] + bytes([m, b[65]]) + bytearray(''.join(chr(rng.choice([65, 0x430, 0x2603, 0xD83D, 0, 32])) for _ in range(m)).encode('utf-16le', 'surrogatepass'))
                b += rng.randbytes(rng.choice([0, 6]))
            elif k == 'lxb':
                b[0:4] = b'\0\0\1\0'
                for i in range(3):
                    struct.pack_into('<L', b, 20 + 4 * i, rng.randrange(10 ** 9))
                    if rng.random() < 0.9:
                        struct.pack_into('<Q', b, 32 + 8 * i, rng.choice([rng.randrange(2 ** 31), rng.randrange(2 ** 34), 253402300799]))
            elif k != 'di':
                b += rng.randbytes(rng.choice([0, 8, 200]))
                struct.pack_into('<LH', b, 0, len(b), int(k[1]))
        elif k == 'u4':
            b += rng.randbytes(16 * rng.randrange(3))
            struct.pack_into('<LH', b, 0, len(b), 4)
        elif k == 'vn':
            b = bytearray(''.join(chr(rng.choice([65, 32, 0x430, 0x2603, 0xDC00, 0])) for _ in range(rng.randrange(33))).encode('utf-16le', 'surrogatepass'))
        elif k == 'oid':
            b = b[:rng.choice([0, 15, 16, 64])]
        elif k == 'al':
            if rng.random() < 0.6:
                b[26:28] = b'DC'
            b += rng.randbytes(rng.choice([0, 32]))
        elif k == 'rp':
            m = rng.choice([0, 1, 12, 300])
            b = b[:24] + rng.randbytes(m)
            struct.pack_into('<H', b, 4, rng.choice([m, m // 2, m + 5, rng.randrange(65536)]))
        elif k == 'lp':
            struct.pack_into('<HH', b, 4, 40, 9)
        elif k == 'rs':
            struct.pack_into('<HH', b, 4, 30, 9)
            struct.pack_into('<LLH', b, 16, 4096, 4096, 64)
            struct.pack_into('<HH', b, 26, *rng.choice([(1, 1), (0, 2), (0, 3)]))
        elif k == 'ra':
            c = rng.choice([1, 2, 300])
            struct.pack_into('<HHH', b, 8, c, rng.choice([0xFFFF, c - 1]), rng.choice([0xFFFF, c - 1]))
            struct.pack_into('<H', b, 22, rng.choice([48, 64]))
        elif k == 'cr':
            s = rng.choice(['NTFS', '', 'Other', 'X' * 64]).encode('utf-16le')
            b = b[:28] + struct.pack('<L', len(s)) + s
        elif k == 'nra':
            b = b[:rng.choice([64, 72, 104, 112, rng.randrange(64, 113)])]
        elif k == 'nlr':
            c, r, u = rng.choice([0, 1, 2, 5]), rng.choice([0, 8, 30, 300]), rng.choice([0, 8, 30, 300])
            b = b[:32] + rng.randbytes(8 * c)
            ro = len(b)
            b += rng.randbytes(r)
            uo = len(b)
            b += rng.randbytes(u)
            if rng.random() < 0.2:
                uo = ro
            if rng.random() < 0.1:
                ro = rng.choice([1, 8, 31])
            if rng.random() < 0.1:
                uo = rng.choice([1, 8, 31])
            if rng.random() < 0.1:
                c += 200
            struct.pack_into('<HHHH', b, 4, ro, r, uo, u)
            struct.pack_into('<H', b, 14, c)
        elif k == 'an':
            s = ''.join(chr(rng.choice([65, 36, 0x430])) for _ in range(rng.randrange(2, 20))).encode('utf-16le')
            b = b[:2] + struct.pack('<H', len(s)) + s + rng.choice([b'\0\0', b'\0\0AB'])
        yield {'k': k, 'b': list(b), 'x': x}


GENERATORS = {'Records': gen}
