"""C05: base and child segments."""
from dfir_ntfs import MFT
import struct
import mft
import ntfs

ID = 'C05'


def runs(tier):
    return [dict(module='MftAssembly', constants={'Scope': '"%s"' % tier}, workers=6),
            dict(module='MftGate', constants={'Scope': '"%s"' % tier}, workers=2)]


def rec(r):
    m = mft.marks(r)
    # the flags and the log sequence number are those of the base segment (see mft.build)
    if r.get_logfile_sequence_number() != mft.lsn(m[0]) or (r.get_flags() & 1) != int(r.is_in_use()):
        return {'b': ['lsn or flags', r.get_logfile_sequence_number(), r.get_flags()], 'm': m}
    return {'b': [r.get_master_file_table_number(), r.get_sequence_number(), int(r.is_in_use())], 'm': m}


def gate(inp):
    vi = ntfs.volume_info(inp['maj'], inp['min'])
    vol, extra = inp['vol'], {}
    if vol == 'plain':
        extra[3] = [ntfs.resident(0x70, vi)]
    elif vol == 'late':
        extra[3] = [ntfs.resident(0x60, 'Vol'.encode('utf-16le')), ntfs.nonresident(0x80, b'\x11\x01\x0a\0', 0, 0, 200), ntfs.resident(0x70, vi)]
    elif vol == 'outside':
        extra[3] = [ntfs.nonresident(0x70, b'\x11\x01\x0a\0', 0, 0, 12)]
    elif vol == 'twice':
        extra[3] = [ntfs.resident(0x70, vi), ntfs.resident(0x70, ntfs.volume_info(3 if inp['maj'] != 3 else 2, 1))]
    data = bytearray(mft.build(inp['segs'], inp['size'], extra=extra, volume=False))
    data[:4] = {'\\0\\0\\0\\0': bytes(4)}.get(inp['sig'], inp['sig'].encode())
    struct.pack_into('<L', data, 28, inp['decl'])
    data = bytes(data[:len(data) - inp['cut']])
    f = mft.open_file(data)
    f.seek(min(5, len(data)))
    try:
        p = MFT.MasterFileTableParser(f) if inp['pass'] == 'auto' else MFT.MasterFileTableParser(f, False)
    except MFT.MasterFileTableException:
        return {'st': 'rejected'}
    if inp['pass'] == 'later':
        p.execute_first_pass()

    def look(k):
        try:
            return mft.marks(p.get_file_record_by_number(k))
        except MFT.MasterFileTableException:
            return []
    return {'st': 'ok', 'all': [mft.marks(r) for r in p.file_records()], 'n': [look(k) for k in range(len(inp['segs']) + 2)], 'stat': [-1 if x is None else x for x in p.statistics]}


def execute(inp):
    if inp['_m'] == 'MftGate':
        return gate(inp)
    data = mft.build(inp['segs'], inp['size'], inp.get('short', False), inp['tail'])
    p = MFT.MasterFileTableParser(mft.open_file(data))
    n = len(inp['segs'])

    def look(k, e, allow):
        try:
            return mft.marks(p.get_file_record_by_number(k, None if e == -1 else e, allow))
        except MFT.MasterFileTableException:
            return []

    q, all_ = [], []
    it = p.file_records()
    for k in range(n + 1):       # lookups are interleaved with the enumeration
        q.append([[look(k, e, True), look(k, e, False)] for e in inp['exps']])
        for r in it:
            all_.append(rec(r))
            break
    all_.extend(rec(r) for r in it)
    return {'st': 'ok', 'all': all_, 'used': [rec(r) for r in p.file_records(True)], 'stat': list(p.statistics), 'q': q}


def gen(rng, tier):
    for _ in range(120 if tier == 'quick' else 3000):
        n = rng.randrange(4, 14) if rng.random() < 0.7 else rng.randrange(14, 40)
        segs = []
        for k in range(n):
            use = 1 if k in (0, 3) else rng.choice([0, 1, 1])
            seq = rng.choice([0, 1, 1, 2, 3, 65535, rng.randrange(65536)])
            v = k in (0, 3) or rng.random() < 0.85
            bn = bs = 0
            if k not in (0, 3) and rng.random() < 0.5:
                bn, bs = rng.randrange(0, n + 2), rng.choice([1, 2, 3, 65534, 65535])
                if bn == 0:
                    bs = rng.choice([1, 1, 2])
            segs.append({'v': v, 'use': use, 'dir': rng.choice([0, 1]), 'seq': seq, 'bn': bn, 'bs': bs, 'names': []})
        # make many references hit: point children at actual bases with their reference number
        for s in segs:
            if s['bn'] and s['bn'] < n and rng.random() < 0.7:
                t = segs[s['bn']]
                q = t['seq']
                if not t['use']:
                    q = q - 1 if q >= 2 else 65535 if q == 0 else q
                if rng.random() < 0.15:
                    q = t['seq'] ^ rng.choice([0, 1])
                s['bs'] = q
        if n > 4 and rng.random() < 0.06:     # a base with very many further segments
            b = rng.choice([k for k in range(4, n)])
            segs[b].update(v=True, use=1, seq=rng.choice([1, 2, 700]), bn=0, bs=0)
            for _ in range(rng.choice([17, 33, 40, 64, 70, 130])):
                segs.append({'v': rng.random() < 0.97, 'use': rng.choice([1, 1, 1, 0]), 'dir': 0, 'seq': rng.choice([1, 5]), 'bn': b, 'bs': segs[b]['seq'] if rng.random() < 0.97 else segs[b]['seq'] + 1, 'names': []})
        yield {'segs': segs, 'exps': [-1, 1, 2, rng.choice([s['seq'] for s in segs])], 'tail': rng.choice([0, 0, 0, 1, 512, 1000]), 'size': rng.choice([1024, 1024, 4096]), 'short': rng.random() < 0.2}


def gen_gate(rng, tier):
    for inp in gen(rng, tier):
        if rng.random() < 0.6:
            cut = rng.choice([0, 0, 0, 1, 100, inp['size'] - 40])
            yield {'sig': 'FILE' if rng.random() < 0.9 else rng.choice(['BAAD', 'FILL', 'file']), 'decl': inp['size'] if rng.random() < 0.9 else rng.choice([0, 512, 2048, 1 << 20]), 'size': inp['size'], 'segs': inp['segs'], 'cut': cut,
                   'vol': rng.choice(['plain', 'plain', 'late', 'twice', 'none', 'outside']), 'maj': rng.choice([3, 3, 3, 3, 1, 2, 4, 0, 255]), 'min': rng.choice([1, 1, 1, 0, 2, 255]), 'pass': rng.choice(['auto', 'never', 'later'])}


GENERATORS = {'MftAssembly': gen, 'MftGate': gen_gate}
