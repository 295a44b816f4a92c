"""C09: boot sector geometry and locating the $MFT."""
import struct
from dfir_ntfs import MFT, BootSector
import ntfs
from lib import ReadOnlyFile

ID = 'C09'


def runs(tier):
    r = [dict(module='BootSector', constants={'Scope': '"%s"' % tier}), dict(module='MftOpen', constants={'Scope': '"%s"' % tier}, workers=6)]
    return r


def odd(v):
    e = 0
    while v and v % 2 == 0:
        v //= 2
        e += 1
    return [v, e]


def exec_boot(inp):
    b = bytearray(ntfs.boot_sector(oem=b'NTFS    ' if inp['oem'] else b'NTFS   \0'))
    b[11], b[12], b[13] = inp['b11'], inp['b12'], inp['b13']
    b[40:48], b[48:56], b[56:64] = bytes(inp['total']), bytes(inp['mft']), bytes(inp['mirr'])
    b[64], b[68] = inp['f'], inp['x']
    if not inp['jmp']:
        b[0:2] = b'\0\0'
    if not inp['sig']:
        b[510] = 0x54
    b = (bytes(b) + bytes(2048))[:inp['len']]
    try:
        s = BootSector.BootSector(b)
    except BootSector.BootSectorException:
        return {'st': 'reject'}

    def val(f):
        try:
            return f()
        except BootSector.BootSectorException:
            return None

    def size(f):
        v = val(f)
        return [-1, 0] if v is None else odd(v)

    def wide(f):
        v = val(f)
        return [] if v is None else list(struct.pack('<Q', v))
    return {'st': 'ok', 'geo': {'bps': size(s.get_bytes_per_sector), 'spc': size(s.get_sectors_per_cluster), 'frs': size(s.get_file_record_segment_size), 'idx': size(s.get_index_record_size)},
            'total': wide(s.get_total_number_of_sectors), 'mft': wide(s.get_first_mft_cluster), 'mirr': wide(s.get_first_mftmirr_cluster), 'code': s.is_boot_code_present()}


def list_entry(code, name, lo, segment, instance=0):
    nm = name.encode('utf-16le')
    n = ntfs.align8(26 + len(nm))
    b = struct.pack('<LHBBQQH', code, n, len(nm) // 2, 26, lo, segment, instance) + nm
    return b + bytes(n - len(b))


ALIST_LCN = 290


def volume(inp):
    cs, size = inp['cs'], 1024
    pieces = sorted(range(len(inp['pieces'])), key=lambda k: (inp['pieces'][k]['lo'], k))
    n = inp['size'] // 1024 + 1
    list_bytes = b''.join(list_entry(0x80 if e['t'] in ('data', 'named') else 0x10, 'x' if e['t'] == 'named' else '', e['lo'], ntfs.ref(e['seg'], 1)) for e in inp['list'])
    holders = {p['seg']: p for p in inp['pieces']}
    segs = []
    for k in range(n + 1):
        attrs = []
        if k == 0 and inp['haslist']:
            if inp['res']:
                attrs.append(ntfs.resident(0x20, list_bytes))
            else:
                nc = (len(list_bytes) + cs - 1) // cs
                attrs.append(ntfs.nonresident(0x20, ntfs.pairs([(ALIST_LCN, nc)] if nc else []), 0, (nc - 1) % (1 << 64), len(list_bytes)))
        if k == 3:
            attrs.append(ntfs.resident(0x70, ntfs.volume_info()))
        p = holders.get(k)
        if p:
            cnt = sum(c for _, c in p['runs'])
            if not p['bad'] or k:
                attrs.append(ntfs.nonresident(0x80, ntfs.pairs(p['runs']), p['lo'], p['lo'] + max(cnt, 1) - 1, inp['size'] if p['lo'] == 0 else 0, alloc=(1 << 30)))
        raw = ntfs.frs(attrs, number=k, base=0 if k == 0 or not p else ntfs.ref(0, 1), lsn=7000 + k)
        if p and p['bad'] and k:
            raw = bytearray(raw)
            raw[1022] ^= 1
            raw[510] ^= 1
        segs.append(bytes(raw))
    true = b''.join(segs)
    vol = bytearray(300 * cs)
    vol[:512] = ntfs.boot_sector(bps=512, spc=cs // 512, mft=inp['pieces'][0]['runs'][0][0] if inp['pieces'] and inp['pieces'][0]['runs'] else 30, frs_code=0xF6)
    pos = 0
    for k in pieces:
        for lcn, cnt in inp['pieces'][k]['runs']:
            for j in range(cnt):
                vol[(lcn + j) * cs:(lcn + j + 1) * cs] = (true[pos:pos + cs] + bytes(cs))[:cs]
                pos += cs
    if not inp['pieces'] or not inp['pieces'][0]['runs']:
        vol[30 * cs:30 * cs + 1024] = segs[0]
    vol[ALIST_LCN * cs:ALIST_LCN * cs + len(list_bytes)] = list_bytes
    return true, b'\xAB' * inp['voff'] + bytes(vol)


def exec_open(inp):
    true, vol = volume(inp)
    try:
        v = MFT.FileSystemParser(ReadOnlyFile(vol), inp['voff'])
    except MFT.MasterFileTableException:
        return {'st': 'reject'}
    can = []
    for n in range(inp['size'] // 1024):
        try:
            v.seek(n * 1024)
            b = v.read(1024)
            can.append(struct.unpack('<Q', b[8:16])[0] - 7000 if b == true[n * 1024:n * 1024 + 1024] else -2)
        except MFT.MasterFileTableException:
            can.append(-1)
    v.seek(0, 2)
    assert v.cluster_size == inp['cs']
    return {'st': 'ready', 'runs': [list(x) for x in v.data_runs], 'size': v.tell(), 'can': can}


def execute(inp):
    return exec_boot(inp) if inp['_m'] == 'BootSector' else exec_open(inp)


def gen(rng, tier):
    for _ in range(600 if tier == 'quick' else 8000):
        cs = rng.choice([512, 1024, 2048, 4096])
        many = rng.random() < 0.05
        if rng.random() < 0.04:
            cs = rng.choice([8192, 32768, 65536])
        lim = 280 if many else 88
        free = list(range(2, lim))
        rng.shuffle(free)
        used = set()

        def take(n):
            for s in free:
                if all(x not in used and x < lim for x in range(s, s + n)):
                    used.update(range(s, s + n))
                    return s
            return None
        pieces, lo = [], 0
        for k in range(rng.choice([9, 12, 17, 24, 33]) if many else rng.randrange(1, 6) if cs <= 4096 else 3):
            rr = []
            for _ in range(rng.randrange(1, 4)):
                c = rng.randrange(1, 5 if cs <= 4096 else 3) if k else rng.randrange(2, 8)
                s = take(c)
                if s is None:
                    break
                rr.append([s, c])
            if not rr:
                break
            pieces.append({'seg': 0 if k == 0 else None, 'lo': lo, 'runs': rr, 'bad': False, 'dup': False})
            lo += sum(c for _, c in rr)
        cov = pieces[0]
        nums = list(range(4, lo * cs // 1024 + 2))
        for i, p in enumerate(pieces[1:], 1):
            inside = [x for x in nums if (x + 1) * 1024 <= p['lo'] * cs]
            c = rng.choice(inside) if inside and rng.random() < 0.9 else rng.choice(nums or [4])
            if c in nums:
                nums.remove(c)
            p['seg'] = c
        if len({p['seg'] for p in pieces}) != len(pieces):
            continue
        es = [{'t': 'data', 'seg': p['seg'], 'lo': p['lo']} for p in pieces]
        if rng.random() < 0.15 and len(pieces) > 1:
            pieces[-1]['bad'] = True
        if rng.random() < 0.1 and len(pieces) > 1:
            pieces[-1]['lo'] += rng.choice([-1, 1])
        if rng.random() < 0.15:
            es.pop(rng.randrange(len(es)))
        for _ in range(rng.randrange(0, 3)):
            es.append({'t': rng.choice(['other', 'named']), 'seg': rng.randrange(9), 'lo': rng.randrange(5)})
        if rng.random() < 0.4:
            rng.shuffle(es)
        n = lo * cs
        yield {'cs': cs, 'voff': rng.choice([0, 512, 4096, 1048576]), 'size': n - rng.choice([0, 0, 512, 1024]), 'haslist': len(pieces) > 1 or rng.random() < 0.3, 'res': rng.random() < 0.6 and len(es) < 15, 'pieces': pieces, 'list': es}


GENERATORS = {'MftOpen': gen}
