"""C10: change journal."""
import datetime, struct
from dfir_ntfs import USN
from lib import ReadOnlyFile

ID = 'C10'


def runs(tier):
    return [dict(module='Usn', constants={'Scope': '"%s"' % tier}, workers=8, heap='8g')]


def le(v, n):
    return list(v.to_bytes(n, 'little'))


def units(s):
    r = s.encode('utf-16le', 'surrogatepass')
    return list(struct.unpack('<%dH' % (len(r) // 2), r))


def image(inp):
    b = bytearray(inp['size'])
    for s in inp['mem']:
        if s['b']:
            b[s['a']:s['a'] + len(s['b'])] = bytes(s['b'])
    return bytes(b[:inp['size']])


def execute(inp):
    f = ReadOnlyFile(image(inp))
    journal = USN.ChangeJournalParser(f)
    other = journal.usn_records()
    out = []
    for k, r in enumerate(journal.usn_records()):
        v = r.get_major_version()
        o = {'v': v, 'min': r.get_minor_version(), 'len': r.get_record_length()}
        h = 8 if v == 2 else 16
        o['ref'], o['par'], o['usn'] = le(r.get_file_reference_number(), h), le(r.get_parent_file_reference_number(), h), le(r.get_usn(), 8)
        if v == 4:
            o['ts'], o['name'] = [], []
            o['w'] = [le(r.get_reason(), 4), le(r.get_source_info(), 4), le(r.get_remaining_extents(), 4)]
            o['ext'] = [list(struct.pack('<qq', *e) if isinstance(e, tuple) else e) for e in r.extents()]
        else:
            t = r.get_timestamp()
            o['ts'] = -1 if t is None else (t - datetime.datetime(1601, 1, 1)) // datetime.timedelta(microseconds=1)
            o['w'] = [le(r.get_reason(), 4), le(r.get_source_info(), 4), le(r.get_security_id(), 4), le(r.get_file_attributes(), 4)]
            try:
                o['name'] = units(r.get_file_name())
            except ValueError:
                o['name'] = [-1]
            o['ext'] = []
        out.append(o)
        if k % 3:            # another listing goes on, and the file is moved, between two records
            next(other, None)
        elif k % 2:
            f.seek(0, k & 2)
    return {'st': 'ok', 'r': out}


LAST = (datetime.datetime.max - datetime.datetime(1601, 1, 1)) // datetime.timedelta(microseconds=1)


def same_time(want, got):
    """Equal up to the precision of a microsecond count held in double precision."""
    want = int.from_bytes(bytes(want), 'little')
    if not isinstance(got, int):
        return False
    if got == -1:
        return want >= LAST - 64
    tol = max(1, 1 << max(0, want.bit_length() - 53))
    return abs(want - got) <= tol


def agree(m, inp, want, got):
    if got.get('st') != 'ok' or len(got['r']) != len(want['r']):
        return False
    for w, g in zip(want['r'], got['r']):
        if w['v'] in (2, 3):
            if not same_time(w['ts'], g['ts']):
                return False
            w, g = dict(w, ts=0), dict(g, ts=0)
        if w != g:
            return False
    return True


def record(rng, uid):
    v = rng.choice([2, 2, 2, 3, 4])
    name = ''.join(chr(rng.choice([65, 97, 46, 0x430, 0x2603, 0xFFFD, 0x20, 0])) for _ in range(rng.choice([0, 1, 3, 12, 40, 127, 255])))
    nm = name.encode('utf-16le')
    ts = (rng.randrange(0, 1 << 54) if rng.random() < 0.3 else rng.randrange(130000000000000000, 137000000000000000))
    refs = [rng.getrandbits(64), rng.getrandbits(64)] if v == 2 else [rng.getrandbits(64) for _ in range(4)]
    if v in (2, 3):
        off = 60 if v == 2 else 76
        body = struct.pack('<%dQ' % len(refs), *refs) + struct.pack('<QQLLLLHH', uid, ts, rng.getrandbits(32), rng.getrandbits(3), rng.getrandbits(32), rng.getrandbits(16), len(nm), off) + nm
    else:
        n = rng.choice([1, 2, 3, 3, 20, 70, 252])     # up to a page of the journal
        body = struct.pack('<4Q', *refs) + struct.pack('<QLLLHH', uid, rng.getrandbits(32), 1, rng.randrange(9), n, 16) + b''.join(struct.pack('<qq', rng.getrandbits(40), rng.getrandbits(20)) for _ in range(n))
    ln = (8 + len(body) + 7) // 8 * 8
    if rng.random() < 0.1:
        ln += 8 * rng.randrange(1, 4)
    b = struct.pack('<LHH', ln, v, 0) + body
    return bytearray(b + bytes(ln - len(b)))


def dense(rng, size):
    """Records one after another, long ones among them."""
    a, mem, k = rng.choice([0, 0, 8, 24, 512]), [], 0
    while a < size:
        r = record(rng, k * 8 + 5)
        if rng.random() < 0.03:
            r[4] = 9
        mem.append({'a': a, 'b': list(r)})
        a += len(r)
        k += 1
    return {'size': a, 'mem': [{'a': mem[0]['a'], 'b': [x for m in mem for x in m['b']]}]}


def gen(rng, tier):
    for _ in range(12 if tier == 'quick' else 200):
        yield dense(rng, rng.choice([10000, 20000, 40000]))
    yield dense(rng, 150000)
    for _ in range(150 if tier == 'quick' else 2500):
        a = rng.choice([0, 0, 8, 4096, 8192, 8184, 8000, 16384, 24576, 8192 * 9, 8192 * 9, 1 << 20, (1 << 20) + 65536 - 16])
        mem = []
        for k in range(rng.choice([1, 3, 10, 30])):
            r = record(rng, k * 8 + 5)
            d = rng.random()
            if d < 0.08:
                r[rng.choice([0, 1, 2, 4, 5])] = rng.choice([0, 1, 2, 3, 4, 7, 60, 64, 255])
            elif d < 0.12:
                struct.pack_into('<H', r, 56 if r[4] == 2 else 60 if r[4] == 4 else 72, rng.choice([0, 1, 3, 600]))
            mem.append({'a': a, 'b': list(r)})
            a += len(r)
            g = rng.random()
            if g < 0.15:   # records do not cross a page of the journal: zeros up to the next one
                a = (a + 4095) // 4096 * 4096
            elif g < 0.25:
                a += 8 * rng.choice([1, 2, 5, 900, 1024] * 5 + [40000, 140000])
            elif g < 0.35:
                j = [rng.choice([0, 0, 2, 3, 4, 64, 80, 255]) for _ in range(8 * rng.randrange(1, 12))]
                mem.append({'a': a, 'b': j})
                a += len(j)
        size = a + rng.choice([0, 0, 4, 7, 8, 8192, -8, -3])
        mem = [m for m in mem if m['a'] < size]
        mem = [{'a': m['a'], 'b': m['b'][:size - m['a']]} for m in mem]
        if size > 0:
            yield {'size': size, 'mem': mem}


GENERATORS = {'Usn': gen}
