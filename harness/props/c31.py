"""C31: the report made of a change journal (ntfs_parser --usn)."""
import random
import struct
import cli
import mft
import ntfs
from props.c07 import gen_segs
from props.c30 import filetime, shown, text, path

ID = 'C31'
HEAD = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']
REASONS = {15: 'BASIC_INFO_CHANGE', 31: 'CLOSE', 17: 'COMPRESSION_CHANGE', 1: 'DATA_EXTEND', 0: 'DATA_OVERWRITE', 2: 'DATA_TRUNCATION', 10: 'EA_CHANGE', 18: 'ENCRYPTION_CHANGE', 8: 'FILE_CREATE', 9: 'FILE_DELETE', 16: 'HARD_LINK_CHANGE',
           14: 'INDEXABLE_CHANGE', 23: 'INTEGRITY_CHANGE', 5: 'NAMED_DATA_EXTEND', 4: 'NAMED_DATA_OVERWRITE', 6: 'NAMED_DATA_TRUNCATION', 19: 'OBJECT_ID_CHANGE', 13: 'RENAME_NEW_NAME', 12: 'RENAME_OLD_NAME', 20: 'REPARSE_POINT_CHANGE',
           11: 'SECURITY_CHANGE', 21: 'STREAM_CHANGE', 22: 'TRANSACTED_CHANGE'}
SOURCES = {1: 'AUXILIARY_DATA', 0: 'DATA_MANAGEMENT', 2: 'REPLICATION_MANAGEMENT', 3: 'CLIENT_REPLICATION_MANAGEMENT'}


def runs(tier):
    return [dict(module='UsnReport', constants={'Scope': '"%s"' % tier}, workers=4)]


def bits(q):
    return sum(1 << b for b in q)


def journal(j, rng):
    out = bytes(rng.choice([0, 0, 8, 4096, 65536]))
    usns = []
    for r in j:
        out += bytes(-len(out) % 8)
        u = len(out) + 0x7000000000
        usns.append(u)
        f, p = ntfs.ref(r['fn'], r['fs']), ntfs.ref(r['pn'], r['ps'])
        nm = text(r['nm']).encode('utf-16le')
        if r['v'] == 2:
            b = struct.pack('<QQQQLLLLHH', f, p, u, filetime(r['id'], 0), bits(r['r']), bits(r['s']), 7, 0x20, len(nm), 60) + nm
        elif r['v'] == 3:
            b = struct.pack('<QQQQQQLLLLHH', f, 0, p, 0, u, filetime(r['id'], 0), bits(r['r']), bits(r['s']), 7, 0x20, len(nm), 76) + nm
        else:
            b = struct.pack('<QQQQQLLLHH', f, 0, p, 0, u, bits(r['r']), bits(r['s']), 0, 1, 16) + struct.pack('<qq', 0, 4096)
        n = (8 + len(b) + 7) // 8 * 8
        out += (struct.pack('<LHH', n, r['v'], 0) + b).ljust(n, b'\0')
        if rng.random() < 0.1:
            out += bytes(-len(out) % 4096)
    return out, usns


def execute(inp):
    rng = random.Random(repr(inp))
    jr, usns = journal(inp['j'], rng)
    t = cli.table(cli.run('ntfs_parser', ['--usn', '@mft', '@usn', '@out'], {'mft': mft.build(inp['segs']), 'usn': jr}, 'out'))
    if not t or t[0] != HEAD:
        return {'st': 'header', 'rows': t}
    return {'st': 'ok', 'rows': t[1:], 'usns': usns}


def names(known, other, table, prefix):
    q = [prefix + table[b] for b in sorted(known)]
    if other:
        q.append(hex(bits(other)))
    return ' | '.join(q)


def agree(m, inp, want, got):
    if got.get('st') != 'ok' or len(want['rows']) != len(got['rows']):
        return False
    for w, u, g in zip(want['rows'], got['usns'], got['rows']):
        row = [str(u), names(w['s'], w['so'], SOURCES, 'USN_SOURCE_'), names(w['r'], w['ro'], REASONS, 'USN_REASON_'), str(ntfs.ref(w['fn'], w['fs'])), str(ntfs.ref(w['pn'], w['ps'])),
               '' if w['id'] < 0 else shown(filetime(w['id'], 0)), text(w['nm']), path(w['path'])]
        if row != g:
            return False
    return True


def gen(rng, tier):
    for case in range(150 if tier == 'quick' else 3000):
        n = rng.choice([7, 10, 16]) if case % 50 else 60
        segs = gen_segs(rng, n, 'abXY\u0430,"')
        for s in segs:
            if s['bn']:
                s['names'] = []
            q = [x for x in s['names'] if x['fl'] != 2][:1] + [x for x in s['names'] if x['fl'] == 2][:1]
            rng.shuffle(q)
            s['names'] = q
        j = []
        for _ in range(rng.choice([1, 3, 10, 60]) if case % 50 else 300):
            k = rng.randrange(n + 1)
            q = segs[k]['seq'] if k < n else 1
            j.append({'v': rng.choice([2, 2, 3, 4]), 'fn': k + (ntfs.FAR if rng.random() < 0.04 else 0), 'fs': max(0, min(65535, rng.choice([q, q, q, q - 1, q + 1]))), 'pn': rng.choice([rng.randrange(n), ntfs.FAR + 5, (1 << 31) - 1]), 'ps': rng.randrange(65536), 'r': sorted(rng.sample(range(32), rng.choice([0, 1, 2, 4]))),
                      's': sorted(rng.sample(range(32), rng.choice([0, 0, 1, 2]))), 'id': rng.randrange(90), 'nm': [rng.choice([97, 98, 34, 44, 0x430, 0x2603]) for _ in range(rng.choice([1, 3, 20]))]})
        yield {'segs': segs, 'j': j}


GENERATORS = {'UsnReport': gen}
