"""C04: attributes of a file record segment."""
import struct
from dfir_ntfs import MFT
import ntfs

ID = 'C04'


def runs(tier):
    return [dict(module='FrsAttrs', constants={'Mode': '"res"'}), dict(module='FrsAttrs', cases=False, constants={'Mode': '"nonres"'})]


def image(inp):
    size = inp['size']
    n = size // 512
    b = bytearray(((a * 7) + (a // 256)) % 251 for a in range(size))
    for s in inp['segs']:
        for k, v in enumerate(s['b']):
            if s['a'] + k < size:
                b[s['a'] + k] = v
    usa_end = inp['uoff'] + 2 * (n + 1)
    h = ntfs.frs_header(size, inp['uoff'], n, fao=inp['fao'], ffb=inp['ffb'], seq=inp['seq'], links=inp['links'], flags=inp['flags'], nexti=inp['nexti'], sig=inp['sig'].encode(), declared=inp['decl'])
    h[8:16] = bytes(inp['lsn'])
    h[32:40] = bytes(inp['base'])
    if inp['uoff'] >= 48:
        h[42:48] = bytes(inp['num'])
    # segments never start before the end of the array unless the header is to be rejected anyway
    b[0:usa_end] = h[0:usa_end]
    return bytes(b), ntfs.protect(b, inp['uoff'], b'\x5a\xc3')


def units(s):
    r = s.encode('utf-16le', 'surrogatepass')
    return list(struct.unpack('<%dH' % (len(r) // 2), r))


def le64(v):
    return list(struct.pack('<q', v) if v < 0 else struct.pack('<Q', v))


def execute(inp):
    plain, raw = image(inp)
    try:
        f = MFT.FileRecordSegment(raw, suggested_mft_number=inp['sug'])
    except MFT.MasterFileTableException:
        return {'st': 'reject', 'head': [], 'attrs': [], 'slack': -1}
    num = f.get_master_file_table_number()
    head = [le64(f.get_logfile_sequence_number()), [f.get_sequence_number(), f.get_reference_count(), f.get_flags(), f.get_first_attribute_offset(), f.get_next_attribute_instance()],
            le64(f.get_base_file_record_segment()), [int(f.is_bad()), int(f.is_base_file_record_segment()), int(f.is_in_use())],
            [num] if inp['uoff'] < 48 else list(struct.pack('<HL', num >> 32, num & 0xffffffff))]
    out = []
    st = None
    try:
        for a in f.attributes():
            res = type(a) is MFT.AttributeRecordResident
            name = [-1] if a.name is None else units(a.name)
            if res:
                out.append({'res': True, 'tc': list(struct.pack('<L', a.type_code)), 'name': name, 'data': list(a.value), 'ext': []})
            else:
                out.append({'res': False, 'tc': list(struct.pack('<L', a.type_code)), 'name': name, 'data': list(a.mapping_pairs), 'ext': [le64(a.lowest_vcn), le64(a.highest_vcn), le64(a.file_size)]})
    except MFT.AttributeException:
        st = 'err'
    # the slack of a fresh object must not depend on a previous enumeration
    slack = -1
    try:
        s1 = f.get_slack()
        s2 = MFT.FileRecordSegment(raw, suggested_mft_number=inp['sug']).get_slack()
    except MFT.AttributeException:
        pass
    else:
        assert (s1 is None) == (s2 is None)
        if s1 is None:
            st = st or 'noend'
        else:
            b1, b2 = bytes(s1.value), bytes(s2.value)
            assert b1 == b2 and plain.endswith(b1)
            slack = len(b1)
            st = st or 'end'
    return {'st': st, 'head': head, 'attrs': out, 'slack': slack}


def rand_attr(rng):
    name = None
    if rng.random() < 0.4:
        name = ''.join(chr(rng.choice([65, 66, 0x24, 0x49, 0x430, 0x2603, 0xFFFD, 0x100])) for _ in range(rng.randrange(1, 6)))
        if rng.random() < 0.1:
            name += '\U0001F600'
    tc = rng.choice([0x10, 0x20, 0x30, 0x80, 0x90, 0xA0, 0xB0, 0x100, 0x12345678])
    if rng.random() < 0.6:
        return ntfs.resident(tc, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 8, 16, 33, 70]))), name)
    lo = rng.choice([0, 0, 3, 1 << 33])
    return ntfs.nonresident(tc, ntfs.pairs([(rng.randrange(1, 99), rng.randrange(1, 300)) for _ in range(rng.randrange(1, 4))]), lo, lo + rng.choice([0, 5, 1 << 32]), rng.choice([0, 1, 4096, 1 << 40]), name)


def far_attr(rng, room):
    """An attribute whose name, value or runs lie far from its header."""
    a = bytearray(rand_attr(rng))
    if room < len(a) + 600:
        return bytes(a)
    gap = rng.choice([8, 248, 256, 400])
    name = ''.join(rng.choice('AB\u0430') for _ in range(rng.choice([0, 0, 1, 3, 120, 255])))
    nm = name.encode('utf-16le')
    if room < gap + len(nm) + 400:
        nm, name = b'', ''
    res = rng.random() < 0.5
    noff = (24 if res else 64) + rng.choice([0, 2, 6, gap])
    voff = ntfs.align8(noff + len(nm) + rng.choice([0, 8, gap])) if room > 1000 or not nm else ntfs.align8(noff + len(nm))
    val = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 255, 256, 257, 300] if room > 1500 else [0, 1, 40])))
    total = ntfs.align8(voff + max(1, len(val)))
    b = bytearray(rng.randrange(256) for _ in range(total))
    tc, inst = rng.choice([0x10, 0x80, 0xB0, 0x100]), rng.randrange(65536)
    if res:
        struct.pack_into('<LLBBHHHLHBB', b, 0, tc, total, 0, len(nm) // 2, noff, rng.randrange(65536), inst, len(val), voff, 0, 0)
    else:
        size = rng.choice([0, 1, 0x10001, 1 << 40])
        struct.pack_into('<LLBBHHHQQHB5sqqq', b, 0, tc, total, 1, len(nm) // 2, noff, rng.randrange(65536), inst, rng.choice([0, 300]), rng.choice([300, 1 << 34]), voff, rng.choice([0, 4]), b'\1\2\3\4\5', size + 7, size, size // 2)
    b[noff:noff + len(nm)] = nm
    b[voff:voff + len(val)] = val
    return bytes(b) if total <= room else bytes(a)


def at_the_end(rng):
    """The last attribute ends at, or is cut by, the end of the segment: no end marker."""
    size, uoff = 1024, 48
    fao = 56
    last = rng.choice([8, 16, 24, 32, 40, 56, 64, 72])
    fill = size - fao - last
    first = bytearray(fill)
    struct.pack_into('<LLBBHHHLHBB', first, 0, 0x10, fill, 0, 0, 24, 0, 0, fill - 24 if rng.random() < 0.8 else 5, 24, 0, 0)
    tail = bytearray(max(last, 72))
    if rng.random() < 0.5:
        struct.pack_into('<LLBBHHHLHBB', tail, 0, 0x80, last, 0, rng.choice([0, 0, 1]), 24, 0, 0, max(0, last - rng.choice([24, 32])), rng.choice([24, 32]), 0, 0)
    else:
        struct.pack_into('<LLBBHHHQQHB5sqqq', tail, 0, 0x80, last, 1, 0, 64, 0, 0, 0, 0, rng.choice([64, 64, 16, 8]), 0, bytes(5), 8, 8, 8)
    return {'size': size, 'decl': size, 'sig': 'FILE', 'uoff': uoff, 'fao': fao, 'ffb': rng.choice([size, size, size - 4, size - last]), 'seq': 1, 'links': 1, 'flags': 1, 'nexti': 3, 'lsn': [0] * 8, 'base': [0] * 8, 'num': [0] * 6, 'sug': 7,
            'segs': [{'a': fao, 'b': list(first)}, {'a': fao + fill, 'b': list(tail[:last])}]}


def crowded(rng, n):
    """A large segment full of small attributes, or of one large one."""
    size, uoff = 4096, 48
    fao = ntfs.align8(uoff + 18)
    if n == 1:
        body = ntfs.resident(0x80, bytes(rng.randrange(256) for _ in range(rng.choice([3800, 3900, size - fao - 24 - 8]))))
    else:
        body = b''.join(ntfs.resident(rng.choice([0x30, 0x80, 0x100]), bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 8]))), rng.choice([None, 'a', 'B'])) for _ in range(n))
    body += b'\xff\xff\xff\xff' + bytes(4)
    return {'size': size, 'decl': size, 'sig': 'FILE', 'uoff': uoff, 'fao': fao, 'ffb': fao + len(body), 'seq': 1, 'links': 1, 'flags': 1, 'nexti': 3, 'lsn': [0] * 8, 'base': [0] * 8, 'num': [0] * 6, 'sug': 7, 'segs': [{'a': fao, 'b': list(body)}]}


def gen(rng, tier):
    for n in (1, 1, 1, 33, 60, 80):
        yield crowded(rng, n)
    for _ in range(100 if tier == 'quick' else 1500):
        yield at_the_end(rng)
    for _ in range(1500 if tier == 'quick' else 20000):
        size = rng.choice([1024, 1024, 1024, 4096])
        n = size // 512
        uoff = rng.choice([48, 48, 42, 44, 64])
        fao = ntfs.align8(uoff + 2 * (n + 1))
        body = b''
        heads = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            a = rand_attr(rng) if rng.random() < 0.7 else far_attr(rng, size - fao - len(body) - 8)
            if fao + len(body) + len(a) + 8 > size:
                break
            heads.append(fao + len(body))
            body += a
        endpos = fao + len(body)
        body += b'\xff\xff\xff\xff' + bytes(4)
        ffb = fao + len(body)
        segs = [{'a': fao, 'b': list(body)}]
        x = {'size': size, 'decl': size, 'sig': rng.choice(['FILE'] * 6 + ['BAAD', 'CHKD', 'FILF']), 'uoff': uoff, 'fao': fao, 'ffb': ffb, 'seq': rng.randrange(65536), 'links': rng.randrange(5),
             'flags': rng.randrange(16), 'nexti': rng.randrange(65536), 'lsn': [rng.randrange(256) for _ in range(8)], 'base': rng.choice([[0] * 8, [rng.randrange(256) for _ in range(8)], [0] * 6 + [1, 0]]),
             'num': [rng.randrange(256) for _ in range(6)], 'sug': rng.randrange(1000)}
        r = rng.random()
        if r < 0.55 and heads:
            # damage one or two fields of one attribute header
            for _ in range(rng.choice([1, 1, 2])):
                h = rng.choice(heads)
                k = rng.choice([4, 4, 5, 6, 7, 8, 9, 11, 18, 19, 21, 33, 10, 16, 17, 20, 20, 24, 32, 32, 40, 48, 55, 56, 60, 63])
                segs.append({'a': h + k, 'b': [rng.choice([0, 1, 2, 8, 16, 24, 25, 32, 64, 72, 80, 128, 255, rng.randrange(256)])]})
        elif r < 0.7:
            x['ffb'] = max(0, ffb + rng.choice([-8, -7, -4, -1, 1, 8, 100, size - ffb, size - ffb + 1, 4 - (ffb - endpos)]))
        elif r < 0.8:
            x['fao'] = rng.choice([fao - 8, fao - 1, fao + 4, fao + 8, size - 24, size - 16, size])
            segs[0]['b'] = segs[0]['b']
        elif r < 0.85:
            x['decl'] = rng.choice([1024, 4096, 512, 0])
        x['segs'] = segs
        if any(s['a'] < uoff + 2 * (n + 1) for s in segs):
            continue
        yield x


GENERATORS = {'FrsAttrs': gen}
