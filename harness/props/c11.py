"""C11: containers of entries."""
import struct
from dfir_ntfs import Attributes, MFT, WSL
import ntfs
from lib import ReadOnlyFile
from props.c10 import units

ID = 'C11'


def runs(tier):
    return [dict(module='Lists', constants={'Scope': '"%s"' % tier}, workers=6), dict(module='IndexAlloc', constants={'Scope': '"%s"' % tier}, workers=2),
            dict(module='OutValue', constants={'Scope': '"%s"' % tier}, workers=2)]


def le(v, n):
    return list(v.to_bytes(n, 'little'))


def exec_lists(inp):
    k = inp['k']
    for wrap in (bytes, bytearray):   # values come as either
        b = wrap(inp['b'])
        r = walk(k, b)
        if wrap is bytes:
            first = r
        elif r != first:
            return {'st': 'differs between bytes and bytearray', 'e': [first, r]}
    return first


def walk(k, b):
    out, slack = [], []
    if k == 'al':
        for e in Attributes.AttributeList(b).entries():
            out.append({'tc': le(e.attribute_type_code, 4), 'name': [-1] if e.attribute_name is None else units(e.attribute_name), 'lo': le(e.lowest_vcn, 8), 'ref': le(e.segment_reference, 8), 'inst': e.attribute_instance})
    elif k in ('ir', 'ib'):
        x = Attributes.IndexRoot(b) if k == 'ir' else Attributes.IndexBuffer(b)
        for e in x.index_entries():
            a = e.get_attribute()
            fits = e.get_flags() & 1 and e.get_length() <= len(e.index_entry_raw)
            out.append({'ref': le(e.get_file_reference(), 8), 'len': e.get_length(), 'al': e.get_attribute_length(), 'fl': e.get_flags(), 'attr': [-1] if a is None else list(a), 'vcn': le(e.get_vcn(), 8) if fits else []})
        if k == 'ib':
            slack = list(x.get_slack())
    elif k == 'ea':
        for name, flags, value in Attributes.EA(b).data_parsed():
            out.append({'name': list(name), 'fl': flags, 'val': list(value)})
    else:
        try:
            x = WSL.LXXATTR(b)
        except ValueError:
            return {'st': 'reject', 'e': [], 'slack': []}
        for name, value in x.extended_attributes():
            out.append({'name': list(name), 'val': list(value)})
    return {'st': 'end', 'e': out, 'slack': slack}


def usa_at(i, n):
    at = (48, 40, 264, 506 - 2 * n - 2)[i % 4]
    return at if 40 <= at <= 508 - 2 * n else 40     # it lies before the last word of the first sector


def exec_alloc(inp):
    size = inp['n'] * 512
    data = b''
    for i, d in enumerate(inp['bufs']):
        b = bytearray((j * 13 + i) % 251 for j in range(size))
        b[0:4] = b'INDX' if d['d'] != 'sig' else b'INDY'
        struct.pack_into('<QQ', b, 8, 100 + i, i)
        struct.pack_into('<LLLB', b, 24, 40, d['ff'], size - 24, 0)
        uo = usa_at(i, inp['n'])
        b = bytearray(ntfs.protect(b, uo, bytes([i % 250 + 1, 9])))
        if d['d'] == 'torn':
            b[(i % inp['n']) * 512 + 510] ^= 0x10
        if d['d'] == 'usa':
            struct.pack_into('<H', b, 6, inp['n'] + (1 + 256 if i % 2 else 2))
        data += bytes(b)
    if data and inp['decl'] != inp['n']:
        data = data[:6] + struct.pack('<H', inp['decl'] + 1) + data[8:]
    data += b'INDX' * (inp['part'] * 128)
    x = Attributes.IndexAllocation(ReadOnlyFile(data))
    bufs = []
    for rep in range(2):  # listing again gives the same
        bb = [{'n': y.get_this_block(), 'sl': len(y.get_slack())} for y in x.index_buffers()]
        assert rep == 0 or bb == bufs
        bufs = bb
    for y in x.index_buffers():
        i = y.get_this_block()
        uo = usa_at(i, inp['n'])
        ue = uo + 2 * inp['n'] + 2
        ok = all(y.index_buffer_raw[j] == (j * 13 + i) % 251 for j in range(41, len(y.index_buffer_raw)) if not uo <= j < ue)
        if y.get_logfile_sequence_number() != 100 + i or len(y.index_buffer_raw) != size or not ok:
            return {'st': 'content of a buffer differs'}
    return {'st': 'end', 'size': x.index_buffer_size or 0, 'b': bufs, 'slack': [len(s) for s in x.get_slack()]}


def exec_out(inp):
    data = b''.join(struct.pack('<LHBBQQH6s', 0x80, 32, 0, 26, k, k << 16, k & 0xffff, b'\xee' * 6) for k in range(inp['total'] // 32)) + b'\x55' * (inp['total'] % 32)
    vol = ReadOnlyFile(data)
    a = MFT.AttributeRecordNonresident(0x20, None, ntfs.pairs([(None if l == -1 else l, n) for l, n in inp['runs']]), 0, sum(n for _, n in inp['runs']) - 1, inp['size'])
    res = []
    for _ in range(2):
        try:
            v = a.value_decoded(vol, inp['off'], inp['cs'])
        except MFT.MasterFileTableException:
            res.append({'st': 'rejected', 'e': []})
        else:
            res.append({'st': 'ok', 'e': [e.lowest_vcn for e in v.entries()]})
    return res[0] if res[0] == res[1] else {'st': 'differs when asked again'}


def execute(inp):
    return {'Lists': exec_lists, 'IndexAlloc': exec_alloc, 'OutValue': exec_out}[inp['_m']](inp)


def rb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def name16(rng):
    return ''.join(chr(rng.choice([65, 97, 0x24, 0x430, 0x2603])) for _ in range(rng.randrange(1, 20))).encode('utf-16le')


def make(rng, k, n):
    b = b''
    if k == 'al':
        for _ in range(n):
            nm = name16(rng) if rng.random() < 0.4 else b''
            ln = 26 + len(nm) + (0 if rng.random() < 0.5 else (-(26 + len(nm))) % 8)
            e = struct.pack('<LHBBQQH', rng.choice([16, 48, 128, 160]), ln, len(nm) // 2, 26, rng.getrandbits(40), rng.getrandbits(64), rng.getrandbits(16)) + nm
            b += e + rb(rng, (-len(e)) % 8)
    elif k in ('ir', 'ib'):
        es = b''
        for i in range(n):
            a = rb(rng, rng.choice([1, 8, 66, 80, 83]))
            fl = rng.choice([0, 0, 0, 1])
            ln = 16 + len(a) + (8 if fl & 1 else 0)
            ln += (-ln) % 8 if rng.random() < 0.8 else 0
            e = rb(rng, 8) + struct.pack('<HHHH', ln, len(a), fl, 0) + a
            e += bytes(ln - len(e) - 8) + rb(rng, 8) if fl & 1 and ln - len(e) >= 8 else bytes(max(0, ln - len(e)))
            es += e + bytes((-len(e)) % 8)
        if rng.random() < 0.8:
            es += rb(rng, 8) + struct.pack('<HHHH', 16 if rng.random() < 0.5 else 24, rng.choice([0, 0, 8]), rng.choice([2, 3]), 0) + rb(rng, 8)
        pre = rng.choice([16, 16, 40])
        h = rb(rng, 16 if k == 'ir' else 24) + struct.pack('<LLLL', pre, pre + len(es), pre + len(es) + 64, 1) + rb(rng, pre - 16)
        b = h + es + rb(rng, rng.choice([0, 0, 7, 8, 9, 64]))
    elif k == 'ea':
        for i in range(n):
            nm, v = bytes(rng.randrange(33, 127) for _ in range(rng.randrange(1, 12))), rb(rng, rng.choice([0, 1, 8, 56]))
            ln = 9 + len(nm) + len(v)
            pad = (-ln) % 4
            b += struct.pack('<LBBH', 0 if i == n - 1 and rng.random() < 0.7 else ln + pad, rng.choice([0, 0x80]), len(nm), len(v)) + nm + b'\0' + v + bytes(pad)
    else:
        b = struct.pack('<HH', 0, 1)
        for i in range(n):
            nm, v = rb(rng, rng.randrange(1, 12)), rb(rng, rng.choice([0, 1, 8, 56]))
            ln = 7 + len(nm) + len(v)
            pad = rng.choice([0, (-ln) % 4])
            b += struct.pack('<LHB', 0 if i == n - 1 and rng.random() < 0.7 else ln + pad, len(v), len(nm)) + nm + v + bytes(pad)
    return b


def gen(rng, tier):
    for _ in range(1200 if tier == 'quick' else 15000):
        k = rng.choice(['al', 'ir', 'ib', 'ea', 'lx'])
        big = rng.random() < 0.02
        b = bytearray(make(rng, k, rng.choice([70, 130, 260, 300]) if big else rng.choice([0, 1, 2, 5, 12])))
        need = {'ir': 32, 'ib': 40}.get(k, 0)
        if rng.random() < (0.1 if big else 0.5) and len(b) > need:
            for _ in range(rng.choice([1, 1, 2])):
                p = rng.randrange(len(b))
                b[p] = rng.choice([0, 1, 2, 7, 8, 15, 16, 24, 26, 255, rng.randrange(256)])
        if rng.random() < 0.25:
            b = b[:max(need, len(b) - rng.randrange(0, 40))]
        yield {'k': k, 'b': list(b)}


def gen_alloc(rng, tier):
    for _ in range(150 if tier == 'quick' else 2000):
        n = rng.choice([2, 4, 8, 8, 16])
        m = rng.randrange(0, 8) if rng.random() < 0.95 else rng.choice([33, 65, 130, 260])
        if m > 10:
            n = rng.choice([2, 8])
        elif rng.random() < 0.15:     # up to the largest buffer whose update sequence array fits
            n = rng.choice([32, 128, 129, 200, 233, 234])
        bufs = [{'d': rng.choice(['none', 'none', 'none', 'torn', 'sig', 'usa']) if i else rng.choice(['none'] * 8 + ['torn']), 'ff': rng.choice([40, 100, n * 512 - 24, n * 512 - 32, n * 512 - 33, n * 512, rng.randrange(n * 512)])} for i in range(m)]
        yield {'bufs': bufs, 'n': n, 'part': rng.choice([0, 0, 1]), 'decl': rng.choice([n] * 5 + [n + 1, 1, 300])}


def gen_out(rng, tier):
    for _ in range(200 if tier == 'quick' else 4000):
        cs = rng.choice([512, 1024, 4096, 65536])
        vc = rng.choice([4, 20, 40])
        off = rng.choice([0, 512, 32256, 1 << 20])
        runs = [[rng.choice([-1] + [rng.randrange(1, vc + 1)] * 9), rng.choice([1, 1, 2, 3])] for _ in range(rng.choice([1, 1, 2, 3, 4, 7] * 6 + [40, 90]))]
        if rng.random() < 0.7:
            runs = [[min(max(l, 1), vc - n), n] for l, n in runs]
        full = cs * sum(n for _, n in runs)
        yield {'cs': cs, 'off': off, 'total': min(off + vc * cs, 3 << 20), 'runs': runs, 'size': rng.choice([full, full - 6, full - 7, min(full, 100), full // 2 + 26, full // 2 // 32 * 32, full + 5, 0])}


GENERATORS = {'Lists': gen, 'IndexAlloc': gen_alloc, 'OutValue': gen_out}
