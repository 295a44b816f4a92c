"""C33: the report made of a log file (ntfs_parser --log)."""
import random
import struct
import cli
import logfile
import mft
import ntfs
from props.c07 import gen_segs
from props.c15 import entry
from props.c30 import guid, mace, path, quad, shown, filetime, text
from props.c31 import REASONS, SOURCES, bits, names

ID = 'C33'
OPS = ['Noop', 'CompensationLogRecord', 'InitializeFileRecordSegment', 'DeallocateFileRecordSegment', 'WriteEndOfFileRecordSegment', 'CreateAttribute', 'DeleteAttribute', 'UpdateResidentValue', 'UpdateNonresidentValue', 'UpdateMappingPairs',
       'DeleteDirtyClusters', 'SetNewAttributeSizes', 'AddIndexEntryRoot', 'DeleteIndexEntryRoot', 'AddIndexEntryAllocation', 'DeleteIndexEntryAllocation', 'WriteEndOfIndexBuffer', 'SetIndexEntryVcnRoot', 'SetIndexEntryVcnAllocation', 'UpdateFileNameRoot',
       'UpdateFileNameAllocation', 'SetBitsInNonresidentBitMap', 'ClearBitsInNonresidentBitMap', 'HotFix', 'EndTopLevelAction', 'PrepareTransaction', 'CommitTransaction', 'ForgetTransaction', 'OpenNonresidentAttribute', 'OpenAttributeTableDump',
       'AttributeNamesDump', 'DirtyPageTableDump', 'TransactionTableDump', 'UpdateRecordDataRoot', 'UpdateRecordDataAllocation', 'UpdateRelativeDataIndex', 'UpdateRelativeDataAllocation', 'ZeroEndOfFileRecord']
FLAGS = {0: 'READ_ONLY', 1: 'HIDDEN', 2: 'SYSTEM', 4: 'DIRECTORY', 5: 'ARCHIVE', 6: 'DEVICE', 7: 'NORMAL', 8: 'TEMPORARY', 9: 'SPARSE', 10: 'REPARSE_POINT', 11: 'COMPRESSED', 12: 'OFFLINE', 13: 'NOT_CONTENT_INDEXED', 14: 'ENCRYPTED',
         15: 'INTEGRITY_STREAM', 16: 'VIRTUAL', 17: 'NO_SCRUB_DATA', 18: 'RECALL_ON_OPEN', 19: 'PINNED', 20: 'UNPINNED', 22: 'RECALL_ON_DATA_ACCESS'}


def runs(tier):
    return [dict(module='LogReport', constants={'Scope': '"%s"' % tier}, workers=8)]


# ---- the data of records
def attribute(a):
    k = a['k']
    if k == 'si':
        return ntfs.resident(0x10, struct.pack('<QQQQLLLL', *quad(a['id']), bits(a['fa']), 0, 0, 0))
    if k == 'fn':
        return ntfs.resident(0x30, fname(a['f']))
    if k == 'oid':
        return ntfs.resident(0x40, guid(a['id']).bytes_le)
    if k == 'nr':
        return ntfs.nonresident(0x80, ntfs.pairs([(100, 2)]), 0, 1, 7000)
    return ntfs.resident(0x80, b'd' * a['n'])


def fname(f):
    return ntfs.file_name(ntfs.ref(f['pn'], f['ps']), text(f['nm']), times=quad(f['id']), size=5)


def usn_record(j):
    f, p, nm = ntfs.ref(j['fn'], j['fs']), ntfs.ref(j['pn'], j['ps']), text(j['nm']).encode('utf-16le')
    if j['v'] == 2:
        b = struct.pack('<QQQQLLLLHH', f, p, 4711, filetime(j['id'], 0), bits(j['r']), bits(j['s']), 7, 0x20, len(nm), 60) + nm
    elif j['v'] == 3:
        b = struct.pack('<QQQQQQLLLLHH', f, 0, p, 0, 4711, filetime(j['id'], 0), bits(j['r']), bits(j['s']), 7, 0x20, len(nm), 76) + nm
    else:
        b = struct.pack('<QQQQQLLLHH', f, 0, p, 0, 4711, bits(j['r']), bits(j['s']), 0, 1, 16) + struct.pack('<qq', 0, 4096)
    n = (8 + len(b) + 7) // 8 * 8
    return (struct.pack('<LHH', n, j['v'], 0) + b).ljust(n, b'\0')


def data(d, e):
    p = d['p']
    if p == 'raw':
        return bytes([0x52 + (i % 3) * 4 for i in range(d['n'])])
    if p == 'frs':
        size = (e['bs'] or 2) * 512
        raw = ntfs.frs([attribute(a) for a in d['at']], size=size, number=9)
        return raw[:struct.unpack('<L', raw[24:28])[0]]
    if p == 'attr':
        b = attribute(d['a'])
        return b[:-8] if d['cut'] else b
    if p == 'ie':
        v = fname(d['f'])
        if d['short']:
            v = v[:66]
        n = ntfs.align8(16 + len(v))
        return (struct.pack('<QHHL', ntfs.ref(7, 7), n, len(v), 2 if d['end'] else 0) + v).ljust(n, b'\0')
    if p == 'di':
        return (struct.pack('<QQQQ', *quad(d['id'])) + bytes(24)).ljust(64, b'\1')[:d['n']]
    if p == 'ts':
        o = e['ro'] + e['ao'] - (96 if e['bs'] == 8 else 80)
        return (struct.pack('<QQQQ', *quad(d['id'])) + b'\x21' * 100)[max(o, 0):][:d['n']] if o >= 0 else (b'\x21' * -o + struct.pack('<QQQQ', *quad(d['id'])) + b'\x21' * 100)[:d['n']]
    if p == 'usn':
        b = usn_record(d['j'])
        return b if d['ok'] else b[:4] + b'\1' + b[5:]
    raise AssertionError(p)


def restart(n, cs):
    """The fields of restart area n."""
    f = [1, n % 3] + [n * 1000 + j for j in range(9)]
    b = struct.pack('<LL5Q4L', *f) + struct.pack('<qQL', 0, 0, cs)
    return b + bytes(-len(b) % 8), f


def record(e):
    op = undo = i = lcns = ro = ao = cbo = bs = vcn = 0
    w, r, z = 'ok', b'', b''
    k = e['k']
    if k == 'open':
        op, i, r, z = 28, e['i'], entry(1, ntfs.ref(e['rn'], e['rs']), True), text(e['nm']).encode('utf-16le')
    elif k == 'oat':
        t = bytearray(struct.pack('<HHHHLLL', 40, 0, 1, 0, 0, 0, 0).ljust(24, b'\0'))
        t += b'\x22' * (e['i'] - 24) + entry(1, ntfs.ref(e['rn'], e['rs']), True)
        op, r = 29, bytes(t)
    elif k == 'an':
        x = text(e['nm']).encode('utf-16le')
        op, r = 30, (struct.pack('<HH', e['i'], len(x)) + x + b'\0\0' if e['i'] else b'') + b'\0\0\0\0'
    else:
        op, undo, i, vcn, cbo, bs, ro, ao, lcns, w = [e[x] for x in ('op', 'u', 'i', 'vcn', 'cbo', 'bs', 'ro', 'ao', 'lcns', 'w')]
        r, z = data(e['r'], e), data(e['z'], e)
    at = 32 + 8 * lcns
    body = r + bytes(-len(r) % 8)
    uat = at + len(body)
    body += z + bytes(-len(z) % 8)
    off = w == 'off'
    if off and not (r or z):
        r = b'\0'
    head = struct.pack('<HHHHHHHHHHHHq', op, undo, 8 if off and r else at, len(r), 16 if off and z else uat, len(z), i, lcns, ro, ao, cbo, bs, vcn)
    lc = [vcn * 100 + 7 * j for j in range(lcns)]
    d = head + b''.join(struct.pack('<q', x) for x in lc) + body
    if w == 'cut':
        d = d[:32 + 8 * (lcns - 1)]
    return d, dict(op=op, undo=undo, i=i, lcns=lc, r=r, z=z)


def dump(b):
    if not b:
        return ['-']
    out = []
    for o in range(0, len(b), 16):
        q = b[o:o + 16]
        h = ' '.join('%02X' % x for x in q[:8]) + ('-' if len(q) > 8 else '') + ' '.join('%02X' % x for x in q[8:])
        out.append('%08X  %s  %s' % (o, h.ljust(47), ''.join(chr(x) if 32 <= x < 127 else '.' for x in q)))
    return out


def times(q, dot=' * '):
    return [dot + '%s timestamp: %s' % x for x in zip('MACE', q)]


def name_lines(b):
    return times(mace(b['id'])) + [' * File name: ' + text(b['nm']), ' * Parent (file reference number): %d' % ntfs.ref(b['pn'], b['ps'])] + ([' * Parent path (from $MFT): ' + path(b['path'])] if b['path'] else []) + ['']


def block(b):
    k = b['b']
    if k == 'si':
        return ['$STANDARD_INFORMATION:'] + times(mace(b['id'])) + [' * File attributes: ' + ' | '.join(FLAGS[x] for x in sorted(b['fa']) if x in FLAGS), '']
    if k == 'fn':
        return ['$FILE_NAME:'] + name_lines(b)
    if k == 'ie':
        return ['$FILE_NAME in index:'] + name_lines(b)
    if k == 'oid':
        return ['$OBJECT_ID:', ' * GUID: %s' % guid(b['id']), ' * Timestamp: ' + ('N/A' if b['id'] == 0 else shown(filetime(b['id'], 5))), '']
    if k == 'ts':
        q = [x if on else 'N/A' for x, on in zip(mace(b['id']), (b['m'], b['a'], b['c'], b['e']))]
        return ['Possible update to $STANDARD_INFORMATION (%s data):' % b['w']] + times(q) + ['']
    if k == 'di':
        return ['Update to duplicated information (%s data):' % b['w']] + times(mace(b['id'])) + ['']
    out = ['USN record (version 4):' if b['v'] == 4 else 'USN record:', ' Number: 4711', ' Source: ' + names(b['s'], b['so'], SOURCES, 'USN_SOURCE_'), ' Reason: ' + names(b['r'], b['ro'], REASONS, 'USN_REASON_'),
           ' File reference number: %d' % ntfs.ref(b['fn'], b['fs']), ' Parent file reference number: %d' % ntfs.ref(b['pn'], b['ps'])]
    if b['v'] != 4:
        out += [' Timestamp: ' + shown(filetime(b['id'], 0)), ' File name: ' + text(b['nm'])]
    return out + ['']


def section(w, info, lsn, tid):
    if w['k'] == 'ra':
        f = info
        return ['LSN: %d' % lsn, 'Restart area, version: %d.%d' % (f[0], f[1]), ' Start of checkpoint LSN: %d' % f[2], ' Tables (LSN and length):', ' * Open attribute table: %d %d' % (f[3], f[7]), ' * Attribute names: %d %d' % (f[4], f[8]),
                ' * Dirty page table: %d %d' % (f[5], f[9]), ' * Transaction table: %d %d' % (f[6], f[10])]
    op = ['%s' % (OPS[x] if x < len(OPS) else hex(x)) for x in (info['op'], info['undo'])]
    out = ['LSN: %d' % lsn, 'Transaction ID: %d' % tid, 'Log record, redo operation: %s, undo operation: %s' % tuple(op)]
    if w['k'] in ('open', 'oat', 'an'):
        w = {'k': 'ok', 'num': -1, 'tgt': {'rn': -1}, 'path': [], 'at': -1, 'said': []}
    if w['num'] >= 0:
        out.append('Target (file number): %d' % w['num'])
        if w['path']:
            out.append('Target path (from $MFT, likely wrong if the file was deleted later): ' + path(w['path']))
    elif w['tgt']['rn'] >= 0:
        t = w['tgt']
        out += ['Target (file reference number): %d' % ntfs.ref(t['rn'], t['rs']), 'Target (attribute name): ' + ('-' if t['nm'] == [-1] else text(t['nm']))]
        if w['path']:
            out.append('Target path (from $MFT): ' + path(w['path']))
    else:
        out.append('Unknown target, target attribute: %d' % info['i'])
    out.append('Unknown offset in target' if w['at'] < 0 else 'Offset in target: %d' % w['at'])
    if w['k'] == 'cut':
        return out + ['Warning: truncated page']
    if info['lcns']:
        out.append('LCN(s): ' + ' '.join(map(str, info['lcns'])))
    out += ['Redo data:'] + dump(info['r']) + ['', 'Undo data:'] + dump(info['z']) + ['']
    for b in w['said']:
        out += block(b)
    return out


def execute(inp):
    ops, infos = [], []
    for n, e in enumerate(inp['evs']):
        d, info = restart(n + 1, inp['cs']) if e['k'] == 'ra' else record(e)
        infos.append(info)
        ops.append({'o': 'rec', 'n': len(d), 'prev': 0, 'undo': 0, 't': 2 if e['k'] == 'ra' else 1, 'c': 0, 'pts': [], 'head': d})
    ops.append({'o': 'put'})
    conf = {'v': 1, 'k': max(8, len(ops)), 'hdr': 48, 'doff': 64, 'seq': 3, 'at': 0, 'rst': [0, 0, 1, 0], 'ops': ops}
    log = logfile.build(conf)
    t = cli.run('ntfs_parser', ['--log', '@mft', '@log', '@out'], {'mft': mft.build(inp['segs']), 'log': log.image(conf)}, 'out')
    return {'st': 'ok', 'text': t, 'lsns': [log.lsn(j + 1) for j in range(len(infos))]}


def agree(m, inp, want, got):
    if got.get('st') != 'ok':
        return False
    parts = got['text'].split('\n\n---\n\n')
    if parts.pop() != '':
        return False
    if want['gone']:
        if not parts or parts.pop() != 'Files and directories with these MFT numbers were deleted (in this order):\n' + ' '.join(map(str, want['gone'])):
            return False
    if len(parts) != len(want['out']):
        return False
    for n, (e, w, p) in enumerate(zip(inp['evs'], want['out'], parts)):
        info = restart(n + 1, inp['cs'])[1] if e['k'] == 'ra' else record(e)[1]
        if w['k'] == 'off':        # told, in whatever words, but without the data
            if p.split('\n')[0] != 'LSN: %d' % got['lsns'][n] or 'Redo data:' in p:
                return False
        elif p != '\n'.join(section(w, info, got['lsns'][n], 1001 + n)):
            return False
    return True


def gen(rng, tier):
    for case in range(200 if tier == 'quick' else 4000):
        n = rng.choice([7, 10, 16]) if case % 50 else 60
        segs = gen_segs(rng, n, 'abXY\u0430')
        for s in segs:
            if s['bn']:
                s['names'] = []
            s['names'] = [x for x in s['names'] if x['fl'] != 2][:1] + [x for x in s['names'] if x['fl'] == 2][:1]
            rng.shuffle(s['names'])

        def ref():
            k = rng.choice([5, rng.randrange(n), rng.randrange(n), 77])
            q = 1
            if k < n:
                s = segs[k]
                q = s['seq'] if s['use'] else s['seq'] - 1 if s['seq'] >= 2 else 65535 if s['seq'] == 0 else s['seq']
            return (k + (ntfs.FAR if rng.random() < 0.05 else 0), q if rng.random() < 0.8 else rng.choice([1, 2, 5]))

        def f():
            p = ref()
            return {'pn': p[0], 'ps': p[1], 'nm': [rng.choice([97, 98, 0x430, 0x2603, 46]) for _ in range(rng.randrange(1, 9))], 'id': rng.randrange(0, 90)}

        def attr():
            k = rng.choice(['si', 'fn', 'fn', 'oid', 'other', 'nr'])
            return {'si': lambda: {'k': k, 'id': rng.randrange(90), 'fa': sorted(rng.sample(range(23), rng.randrange(5)))}, 'fn': lambda: {'k': k, 'f': f()}, 'oid': lambda: {'k': k, 'id': rng.randrange(90)},
                    'other': lambda: {'k': k, 'n': rng.randrange(1, 40)}, 'nr': lambda: {'k': k}}[k]()

        def raw():
            return {'p': 'raw', 'n': rng.choice([0, 0, 1, 7, 14, 16, 23, 24, 40, 300])}

        def rows(q, k):
            r = ref()
            return {'v': rng.choice([2, 2, 3, 4]), 'fn': k[0], 'fs': k[1], 'pn': r[0], 'ps': r[1], 'r': sorted(rng.sample(range(32), rng.randrange(4))), 's': sorted(rng.sample(range(6), rng.randrange(2))), 'id': rng.randrange(90), 'nm': q}

        def good(o):
            """Data that belong to an operation."""
            if o == 2:
                return {'p': 'frs', 'at': [attr() for _ in range(rng.randrange(5))]}
            if o in (4, 5, 6):
                return {'p': 'attr', 'a': attr(), 'cut': rng.random() < 0.2}
            if o in (12, 13, 14, 15, 16):
                return {'p': 'ie', 'end': rng.random() < 0.2, 'short': rng.random() < 0.1, 'f': f()}
            if o in (19, 20):
                return {'p': 'di', 'id': rng.randrange(90), 'n': rng.choice([56, 56, 48, 57])}
            if o == 7:
                return {'p': 'ts', 'id': rng.randrange(90), 'n': rng.choice([0, 4, 8, 16, 24, 32, 48])}
            if o == 8:
                return {'p': 'usn', 'ok': rng.random() < 0.8, 'j': rows([97] * rng.randrange(1, 6), ref())} if rng.random() < 0.6 else raw()
            return raw()
        evs = [{'k': 'ra'}]
        idx = [24 + 40 * j for j in range(3)]
        for _ in range(rng.choice([2, 6, 20]) if case % 50 else 150):
            x = rng.random()
            r = ref()
            nm = rng.choice([[36, 74], [36, 74], [36, 74], [36, 73, 51, 48], [], [97, 0x431], [36, 74, 74], [88, 36, 74], [36, 106], [74]])
            if x < 0.06:
                e = {'k': 'ra'}
            elif x < 0.2:
                e = {'k': 'open', 'i': rng.choice(idx), 'rn': r[0], 'rs': r[1], 'nm': nm}
            elif x < 0.25:
                e = {'k': 'oat', 'i': rng.choice(idx), 'rn': r[0], 'rs': r[1]}
            elif x < 0.32:
                e = {'k': 'an', 'i': rng.choice(idx + [0]), 'nm': nm or [98]}
            else:
                o, u = rng.choice([(2, 0), (2, 3), (3, 2), (5, 6), (6, 5), (4, 4), (7, 7), (7, 7), (8, 8), (8, 0), (8, 0), (12, 13), (13, 12), (14, 15), (15, 14), (16, 16), (19, 19), (20, 20), (0, 1), (27, 0), (9, 9), (11, 11), (21, 22), (26, 39), (33, 33), (36, 36), (37, 37)])
                a, b = good(o), good(u)
                if rng.random() < 0.15 and 7 not in (o, u):
                    a, b = rng.choice([(raw(), b), (a, raw())])
                    if o in (12, 14, 16) or u in (12, 14, 16):
                        a, b = [{'p': 'raw', 'n': 24} if y['p'] == 'raw' else y for y in (a, b)]
                w = rng.choice(['ok'] * 14 + ['off', 'cut'])
                e = {'k': 'upd', 'i': rng.choice(idx), 'op': o, 'u': u, 'vcn': rng.choice([0, 1, 2, 3]), 'cbo': rng.choice([0, 2, 4, 6, 7, 8, 14]), 'bs': rng.choice([0, 2, 2, 8]), 'ro': rng.choice([56, 72, 300]), 'ao': rng.choice([24, 32, 40, 48, 56, 0]),
                     'lcns': rng.choice([0, 1, 1, 2]), 'w': w, 'r': a, 'z': b}
                if w == 'cut':
                    e['r'] = e['z'] = {'p': 'raw', 'n': 0}
                    e['lcns'] = rng.choice([1, 2])
                    if o == 3:
                        continue
                if w == 'off' and o == 3:
                    continue
            evs.append(e)
        yield {'segs': segs, 'cs': rng.choice([512, 1024, 4096]), 'evs': evs}


GENERATORS = {'LogReport': gen}
