"""C26: the log of the link tracking service."""
import datetime
import io
import random
from dfir_ntfs import MoveTable
from props import c10

ID = 'C26'
SIGNATURE = bytes.fromhex('eca74366feefd111b2ae00c04fb9386d')


def runs(tier):
    def job(family, **kw):
        return dict(module='LinkLog', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=2, heap='4g', **kw)
    return [job('bytes')] + [job(x, cases=False) for x in ('types', 'wide', 'odd')]


def le(v, n=4):
    return list(v.to_bytes(n, 'little'))


def micros(t, epoch):
    return -1 if t is None else (t - epoch) // datetime.timedelta(microseconds=1)


def reading(raw, text):
    dos = raw.decode('cp866')
    try:
        win = raw.decode('cp1252')
    except UnicodeDecodeError:
        win = None
    if text == dos == win:
        return 'plain'
    if win is None:
        return 'dos' if text == dos else 'wrong'
    return 'two' if text == '"%s" (cp-866), "%s" (windows-1252)' % (dos, win) else 'wrong'


def entry(e):
    raw = e.get_machine_id_raw()
    a, b = e.get_timestamp()
    return {'next': le(e.get_next_log_entry_index()), 'prev': le(e.get_previous_log_entry_index()), 'type': e.get_log_entry_type(), 'index': le(e.get_log_entry_index()), 'object': list(e.get_object_id().bytes_le),
            'volume': list(e.get_droid()[0].bytes_le), 'droid': list(e.get_droid()[1].bytes_le), 'host': list(raw), 'reading': reading(raw, e.get_machine_id()),
            'bvolume': list(e.get_birth_droid()[0].bytes_le), 'bobject': list(e.get_birth_droid()[1].bytes_le), 'from': micros(a, datetime.datetime(1601, 1, 1)), 'to': micros(b, datetime.datetime(1601, 1, 1)),
            'made': [micros(t, datetime.datetime(1582, 10, 15)) for t in e.get_guid_timestamps()]}


def execute(inp):
    rng = random.Random(repr(inp))
    z = inp['size']
    head = (SIGNATURE if inp['sig'] else rng.randbytes(16)) + bytes(inp['head'])
    b = [head.ljust(z, b'\0')]
    for s in inp['sectors']:
        b.append(b''.join(bytes(e) for e in s['e']).ljust(z - 16, b'\xA7') + bytes(s['f']))
    b.append(rng.randbytes(inp['tail']))
    f = io.BytesIO(b''.join(b))
    p = MoveTable.MoveTableParser(f, inp['ask'] or None)
    try:
        h = p.get_header()
        x, y = h.get_expansion_data(), h.get_extended_header()
        if h.is_log_flushed() != bool(h.get_flags() & 1):
            return {'st': 'flushed'}
        raw = bytes(inp['head'][24:40]).split(b'\0')[0]
        header = {'ok': True, 'flags': le(h.get_flags()), 'span': le(x.lowest_log_entry_index_present) + le(x.highest_log_entry_index_present) + le(x.file_size), 'host': list(raw) if reading(raw, y.machine_id) != 'wrong' else y.machine_id, 'volume': list(y.volume_object_id.bytes_le)}
    except ValueError:
        header = {'ok': False, 'flags': [], 'span': [], 'host': [], 'volume': []}
    out, st, foots = [], 'end', []
    try:
        for e in p.log_entries():
            f.seek(rng.randrange(2000))     # the file object is the caller's too
            out.append(entry(e))
    except NotImplementedError:
        st = 'unsupported'
    for s in p.log_sectors():
        foots.append(le(s.get_footer().get_lowest_log_entry_index_present()) + le(s.get_footer().get_next_log_entry_index()))
    again = []
    try:
        for e in p.log_entries():
            again.append(entry(e))
    except NotImplementedError:
        pass
    return {'st': st if again == out else 'a second pass differs', 'out': out, 'foots': foots, 'head': header}


def ticks(want):
    """Ticks of 100 ns to microseconds, as bytes."""
    return list((int.from_bytes(bytes(want), 'little') // 10).to_bytes(8, 'little'))


def agree(m, inp, want, got):
    if got['st'] != want['st'] or got['head'] != want['head'] or len(got['out']) != len(want['out']):
        return False
    if want['st'] == 'end' and got['foots'] != want['foots'] or got['foots'][:len(want['foots'])] != want['foots']:
        return False
    for w, g in zip(want['out'], got['out']):
        w, g = dict(w), dict(g)
        for k in ('from', 'to'):
            if not c10.same_time(ticks(w.pop(k)), g.pop(k)):
                return False
        for a, b in zip(w.pop('made'), g.pop('made')):
            if a == [-1]:
                if b != -1:
                    return False
            elif not c10.same_time(ticks(a), b):
                return False
        if w != g:
            return False
    return True


def gen(rng, tier):
    for case in range(400 if tier == 'quick' else 6000):
        z = rng.choice([512, 512, 4096])
        n = rng.choice([0, 1, 2, 5]) if z == 512 else rng.choice([0, 1, 2])
        long = case % 80 == 0
        if long:
            n = rng.choice([20, 45]) if z == 512 else 4
        secs = []
        for _ in range(n):
            es = []
            for _ in range(4 if z == 512 else 32):
                e = bytearray(rng.randbytes(124))
                e[8:12] = bytes([rng.choice([1, 2, 2]), 0, 0, 0])
                if rng.random() < 0.01 and not long:
                    e[8 + rng.randrange(4)] = rng.choice([0, 3, 1, 255])
                if rng.random() < 0.7:
                    e[68:84] = rng.choice([b'WORKSTATION', b'PC', b'', b'\x8F\xAE', b'\xE0\xE1', b'A' * 16]).ljust(16, b'\0')
                for g in (20, 36, 52, 84, 100):
                    if rng.random() < 0.6:
                        e[g + 7] = 0x11
                        e[g + 8] = rng.choice([0x80, 0xBF, 0x7F, 0xC0])
                if rng.random() < 0.7:
                    e[116:120] = rng.choice([0x01D40000, 0x01D9FFFF, 0, 0x24C85A5D, 0x24C85A5F, 0x24C90000, 0x01B21DD2]).to_bytes(4, 'little')
                es.append(list(e))
            secs.append({'e': es, 'f': list(rng.randbytes(16))})
        yield {'size': z, 'ask': rng.choice([0, z]), 'sig': rng.random() < 0.95, 'head': list(rng.randbytes(116)), 'sectors': secs, 'tail': rng.choice([0, 0, rng.randrange(1, 512), rng.randrange(513, z) if z > 512 else 1])}


GENERATORS = {'LinkLog': gen}
