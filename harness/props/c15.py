"""C15: targets of log records."""
import re
import struct
from dfir_ntfs import LogFile
import logfile
from lib import ReadOnlyFile

ID = 'C15'


def job(setups, maxops, kinds, tier, **kw):
    return dict(module='LogTargets', constants={'Scope': '"%s"' % tier, 'Setups': '{%s}' % ', '.join('[maj |-> %d, cs |-> %d]' % s for s in setups), 'MaxOps': str(maxops), 'Kinds': '{%s}' % ', '.join('"%s"' % k for k in kinds)}, workers=4, heap='6g', **kw)


def runs(tier):
    q = tier == 'quick'
    return [job([(0, 4096), (1, 512), (2, 4096), (-1, 4096)], 4 if q else 5, ["open", "bad", "dump"], tier),
            job([(0, 4096), (1, 1024)], 5 if q else 6, ['dump'], tier, cases=False),
            job([(1, 4096)], 5 if q else 7, ['open'], tier, cases=False),
            job([(1, 4096)], 4 if q else 5, ['open', 'clients'], tier, cases=False)]


def name(n):
    return '' if n == 0 else 'N%d' % n + ('', '', '$I30', '\u0416\u00e9')[n % 4]


def far(e):
    """Some clusters are far away; the specification counts from there."""
    return 1 << 36 if e['k'] == 'upd' and (e['vcn'] + e['ao'] + e['ro']) % 3 == 1 else 0


REF = (1 << 40) + (0x8123 << 48)


def entry(maj, ref, alloc, lsn=77):
    flag = 0xFFFFFFFF if alloc else 0x40
    if maj == 0:
        return struct.pack('<LLQQLLQL', flag, 0, ref, lsn, 0, 128, 0, 4096)
    return struct.pack('<LLLLQQQ', flag, 4096, 128, 0, ref, lsn, 0)


def record(maj, e):
    """The client data of one event."""
    op, undo, redo_data, undo_data, i, vcn, cbo, bs, ro, ao, lcns = 0, 0, b'', b'', 0, 0, 0, 0, 0, 0, 0
    k = e['k']
    bad_redo = bad_undo = False
    if k == 'open':
        op, i = 0x1C, e['i']
        redo_data, undo_data = entry(maj, e['r'] + REF, True), name(e['nm']).encode('utf-16le')
        if e['w'] == 'short':
            redo_data = redo_data[:-1]
        bad_redo, bad_undo = e['w'] == 'off', e['w'] == 'noff'
        if bad_undo and not undo_data:
            undo_data = b'A\x00'
    elif k == 'oat':
        op = 0x1D
        size = 44 if maj == 0 else 40
        t = bytearray(struct.pack('<HHHHLLL', size, 0, len(e['es']), 0, 0, 0, 0).ljust(24, b'\0'))
        for at, ref, alloc in e['es']:
            if len(t) < at + size:
                t += b'\x22' * (at + size - len(t))
            t[at:at + size] = entry(maj, ref + REF, alloc)
        redo_data, bad_redo = bytes(t), e['w'] == 'off'
    elif k == 'an':
        op = 0x1E
        for at, n in e['ns']:
            x = name(n).encode('utf-16le')
            redo_data += struct.pack('<HH', at, len(x)) + x + b'\0\0'
        redo_data += b'\0\0\0\0'
        bad_redo = e['w'] == 'off'
    else:
        op, undo, i, vcn, cbo, bs, ro, ao, lcns = e['op'], e['u'], e['i'], e['vcn'], e['cbo'], e['bs'], e['ro'], e['ao'], e['lcns']
        redo_data, undo_data = b'R' * (vcn % 40), b'U' * (cbo % 24)
    at = 32 + 8 * lcns
    body = redo_data + b'\0' * (-len(redo_data) % 8)
    uat = at + len(body)
    body += undo_data + b'\0' * (-len(undo_data) % 8)
    head = struct.pack('<HHHHHHHHHHHHq', op, undo, 8 if bad_redo else at, len(redo_data), 16 if bad_undo else uat, len(undo_data), i, lcns, ro, ao, cbo, bs, vcn + far(e))
    return head + b''.join(struct.pack('<q', 1000 + vcn + j) for j in range(lcns)) + body, redo_data, undo_data


def execute(inp):
    maj = inp['maj']
    ops = []
    data = []
    if maj >= 0:
        h = struct.pack('<LL5Q4L', maj, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) + struct.pack('<qQL', 0, 0, inp['cs'])
        h += b'\0' * (-len(h) % 8)
        ops.append({'o': 'rec', 'n': len(h), 'prev': 0, 'undo': 0, 't': 2, 'c': 0, 'pts': [], 'head': h})
    for e in inp['evs']:
        d, r, u = record(1 if maj < 0 else maj, e)
        data.append((e, r, u))
        ops.append({'o': 'rec', 'n': len(d), 'prev': 0, 'undo': 0, 't': 1, 'c': e['c'], 'pts': [], 'head': d})
    ops.append({'o': 'put'})
    conf = {'v': 1, 'k': max(8, len(ops) + sum(o.get('n', 0) for o in ops) // 3900), 'hdr': 48, 'doff': 64, 'seq': 3, 'at': 0, 'rst': [0, 0, 1, 0], 'ops': ops}
    log = logfile.build(conf)
    p = LogFile.LogFileParser(ReadOnlyFile(log.image(conf)))
    first = 1 if maj < 0 else 2
    ids = {log.lsn(i + first): i for i in range(len(data))}
    now = {}

    def target(x):
        return [x.calculate_mft_target_number(), x.calculate_mft_target_reference_and_name(), x.calculate_offset_in_target()]
    records = []
    for x in p.parse_ntfs_records():
        records.append(x)
        if isinstance(x, LogFile.NTFSLogRecord) and len(records) % 3:    # some are asked at once, all of them in the end
            now[len(records) - 1] = target(x)
    out = [None] * len(data)
    for z, x in enumerate(records):
        if not isinstance(x, LogFile.NTFSLogRecord):
            continue
        j = ids[x.lsn]
        e, r, u = data[j]
        if out[j] is not None:
            return {'st': 'reported twice'}
        if e['k'] != 'upd':
            out[j] = {'k': e['k']}
            continue
        if bytes(x.get_redo_data()) != r or bytes(x.get_undo_data()) != u or x.get_lcns_for_page() != [1000 + e['vcn'] + i for i in range(e['lcns'])]:
            return {'st': 'data differ', 'e': e}
        n, t, o = target(x)
        if now.get(z, [n, t, o]) != [n, t, o]:
            return {'st': 'the answer changed'}
        if t is None:
            t = []
        else:
            v = re.match('N([0-9]+)', t[1] or '')
            t = [t[0] - REF, -1 if t[1] is None else 0 if t[1] == '' else int(v.group(1)) if v and name(int(v.group(1))) == t[1] else -2]
        up = far(e) * inp['cs'] if maj >= 0 else far(e) * 4096
        if up:
            n = n if n is None else n - up // (e['bs'] * 512 or 1024)
            o = o if o is None or o < up else o - up
        out[j] = {'k': 'upd', 'num': -1 if n is None else n, 'at': -1 if o is None else o, 'tgt': t}
    return {'evs': out}


def gen(rng, tier):
    for _ in range(800 if tier == 'quick' else 15000):
        maj = rng.choice([0, 0, 1, 1, 1, 2, -1])
        size = 44 if maj == 0 else 40
        idx = [24 + size * j for j in range(rng.choice([2, 3, 5] * 20 + [70, 130, 300]))]
        inp = {'maj': maj, 'cs': rng.choice([512, 1024, 4096, 65536]), 'evs': []}
        two = rng.random() < 0.3
        for n in range(1, rng.choice([4, 8, 20, 40])):
            c = rng.randrange(2) if two else 0
            x = rng.random()
            if x < 0.25:
                e = {'k': 'open', 'c': c, 'i': rng.choice(idx), 'r': n, 'nm': rng.choice([0, n]), 'w': rng.choice(['ok'] * 9 + ['short', 'off', 'noff'])}
            elif x < 0.4:
                es = [[i, 1000 + 10 * n + j, rng.random() < 0.7] for j, i in enumerate(idx) if rng.random() < 0.7]
                e = {'k': 'oat', 'c': c, 'es': es, 'w': rng.choice(['ok'] * 9 + ['off'])}
            elif x < 0.55:
                ns = [[i, rng.choice([0, 1000 + 10 * n + j, 1000 + 10 * n + j])] for j, i in enumerate(idx) if rng.random() < 0.7]
                rng.shuffle(ns)
                e = {'k': 'an', 'c': c, 'ns': ns, 'w': rng.choice(['ok'] * 9 + ['off'])}
            else:
                op, u = rng.choice([8, 8, 14, 15, 16, 18, 20, 21, 22, 34, 36, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 17, 19, 33, 35, 37, 0, 1, 10, 23, 24, 27]), rng.choice([0, 0, 1, 8, 15, 21, 36, 5, 7, 13, 37])
                vcn = rng.choice([0, 1, 2, 5, 100, rng.randrange(10000)])
                e = {'k': 'upd', 'c': c, 'i': rng.choice(idx + [0]), 'op': op, 'u': u, 'vcn': vcn, 'cbo': rng.choice([0, 1, 2, 6, 7, 100]), 'bs': rng.choice([0, 2, 2, 8, 1]), 'ro': rng.choice([0, 56, 400, 65535]), 'ao': rng.choice([0, 8, 24, 1000]), 'lcns': rng.choice([0, 1, 1, 2, 2, 16, 17])}
            inp['evs'].append(e)
        yield inp


GENERATORS = {'LogTargets': gen}
