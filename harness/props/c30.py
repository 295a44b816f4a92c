"""C30: the report made of an $MFT (ntfs_parser --mft)."""
import csv
import datetime
import io
import random
import struct
import uuid
import cli
import mft
import ntfs
from props.c07 import gen_segs

ID = 'C30'


def runs(tier):
    return [dict(module='MftReport', constants={'Scope': '"%s"' % tier}, workers=8)]


# ---- timestamps by number: 0 is out of range
def filetime(i, j):
    return 0 if i == 0 and j == 3 else (1 << 64) - 1 - j if i == 0 else 125911584000000000 + (i * 5 + j) * 864000000000 * 3 + (i * 7 + j) * 36000000000 + (4 * i + 8 * j + 16) * 10


def shown(ft):
    t = datetime.datetime(1601, 1, 1)
    try:
        return (t + datetime.timedelta(microseconds=ft // 10)).strftime('%Y-%m-%d %H:%M:%S.%f')
    except OverflowError:
        return 'N/A'


def quad(i):
    """As stored: created, modified, entry modified, accessed."""
    return [filetime(i, j) for j in range(4)]


def mace(i):
    c, m, e, a = [shown(x) for x in quad(i)]
    return [m, a, c, e]


def guid(i):
    if i == 0:
        return uuid.UUID(int=0x1234567812344678b234567812345678)
    t = filetime(i, 5) - 5748192000000000 - 0    # 100 ns units since 1601 -> since 1582-10-15
    t = filetime(i, 5) + 5748192000000000
    return uuid.UUID(fields=(t & 0xFFFFFFFF, (t >> 32) & 0xFFFF, (t >> 48) & 0x0FFF | 0x1000, 0x80, i, 0x123456789ABC))


def wsl(i):
    return [(1500000000 + i * 86400 + j, (i * 1000 + j * 8) * 1000) for j in range(3)]      # accessed, modified, changed


def wsl_shown(i):
    a, m, c = [(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s, microseconds=n // 1000)).strftime('%Y-%m-%d %H:%M:%S.%f') for s, n in wsl(i)]
    return [m, a, c]


def text(q):
    return ''.join(map(chr, q))


def name(e, parent):
    return ntfs.file_name(parent, text(e['nm']), flags=1, times=quad(e['id']), alloc=e['size'] * 2, size=e['size'], attrs=0x10000020 if e['d'] else 0x20)


def attribute(a, rng):
    k = a['k']
    if k == 'si':
        v = struct.pack('<QQQQLLLL', *quad(a['id']), 0x20, 0, 0, 0)
        if a['id'] % 2 == 0:
            v += struct.pack('<LLQQ', 1, 2, 3, usn(a['id']))
        return ntfs.resident(0x10, v)
    if k == 'oid':
        return ntfs.resident(0x40, guid(a['id']).bytes_le + (rng.randbytes(48) if a['id'] % 2 else b''))
    if k == 'ea':
        v = b''
        for i, e in enumerate(a['es']):
            nm = b'LXATTRB' if e['w'] else rng.choice([b'LXATTRBX', b'LXUID', b'lxattrb', b'LXATTR'])
            t = wsl(e['id'])
            val = struct.pack('<HHLLLLLLLQQQ', 0, 1, 0x81A4, 1, 2, 3, t[0][1], t[1][1], t[2][1], t[0][0], t[1][0], t[2][0])
            if not e['ok']:
                val = rng.choice([val[:55], val + b'\0', b'\1' + val[1:], val[:2] + b'\2' + val[3:]])
            b = struct.pack('<BBH', 0, len(nm), len(val)) + nm + b'\0' + val
            n = (len(b) + 4 + 3) // 4 * 4
            v += struct.pack('<L', n if i + 1 < len(a['es']) else n) + b.ljust(n - 4, b'\0')
        return ntfs.resident(0xE0, v)
    if k == 'data':
        if a['res']:
            return ntfs.resident(0x80, b'd' * a['size'], name=text(a['nm']))
        return ntfs.nonresident(0x80, ntfs.pairs([(100, 2)]), a['vcn'], a['vcn'] + 1, a['size'], name=text(a['nm']))
    if k == 'ir':
        es = b''
        for e in a['es']:
            v = name(e, ntfs.ref(5, 5))
            n = ntfs.align8(16 + len(v))
            es += (struct.pack('<QHHL', ntfs.ref(e['rn'], e['rs']), n, len(v), 0) + v).ljust(n, b'\0')
        es += struct.pack('<QHHL', 0, 16, 0, 2)
        return ntfs.resident(0x90, struct.pack('<LLLL', a['ty'], 1, 4096, 1) + struct.pack('<LLLL', 16, 16 + len(es), 16 + len(es), 0) + es, name=('$I30' if rng.random() < 0.8 else '$I31') if a['ty'] == 48 else rng.choice(['$O', '$O', '$I30']))
    raise AssertionError(k)


def usn(i):
    return 0x100000000 + i


def slack(s, rng):
    b = bytes(16)
    if s['part']:
        b = b'\1\0' * 8 + text(s['part']).encode('utf-16le') + (b'\0\0' if rng.random() < 0.5 else b'')
        b += bytes(-len(b) % 8)
    for e in s['es']:
        v = name(e, ntfs.ref(e['pn'], e['ps']))
        b += v + bytes(-len(v) % 8 + 8)
    return b if s['part'] or s['es'] else b''


def build(inp, size=1024):
    rng = random.Random(repr(inp))
    out = []
    for k, s in enumerate(inp['segs']):
        attrs = [attribute(a, rng) for a in s['at']]
        for nm in s['names']:
            attrs.append(ntfs.resident(0x30, ntfs.file_name(ntfs.ref(nm['pn'], nm['ps']), text(nm['nm']), flags=nm['fl'], times=quad(nm['id']), size=77)))
        if k == 3:
            attrs.append(ntfs.resident(0x70, ntfs.volume_info()))
        raw = ntfs.frs(attrs, size=size, number=k, seq=s['seq'], in_use=bool(s['use']), directory=bool(s['dir']), base=ntfs.ref(s['bn'], s['bs']), lsn=1000 + k, slack=slack(s['sl'], rng), usn=bytes([k % 251 + 1, 7]))
        out.append(raw if s['v'] else mft.bad_segment(k, size, raw))
    return b''.join(out)


HEAD = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp', '$SI USN value', '$FN M timestamp', '$FN A timestamp',
        '$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']


def execute(inp):
    return {'st': 'ok', 'rows': cli.table(cli.run('ntfs_parser', ['--mft', '@mft', '@out'], {'mft': build(inp)}, 'out'))}


def path(p):
    return '/'.join({(60, 79, 62): '<Orphan>', (60, 85, 62): '<Unknown>'}.get(tuple(x), text(x)) for x in p)


def yn(x):
    return {1: 'Y', 0: 'N', -1: '?'}[x]


def render(r, tag=''):
    src = {'file': 'File record', 'index': 'Index record', 'slack': 'Slack', 'part': 'Slack'}[r['src']] + tag
    ref = '?' if r['rn'] < 0 else str(ntfs.ref(r['rn'], r['rs']))
    if r['src'] == 'part':
        return [src, '?', '?', '?', '', '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>' + text(r['path'][0])] + [''] * 5 + ['?'] * 4 + ['', '?', '', '', '', '']
    si = [''] * 5 if r['si'] < 0 else mace(r['si']) + [str(usn(r['si'])) if r['si'] % 2 == 0 else '']
    fn = [''] * 4 if r['fn'] < 0 else mace(r['fn'])
    return [src, ref, yn(r['use']), yn(r['dir']), '' if r['lsn'] < 0 else str(1000 + r['lsn']), path(r['path'])] + si + fn + \
        ['' if r['oid'] < 0 else shown(filetime(r['oid'], 5)), '?' if r['size'] < 0 else str(r['size']), ' '.join(text(x) for x in r['ads'])] + (['', '', ''] if r['wsl'] < 0 else wsl_shown(r['wsl']))


def agree(m, inp, want, got):
    if got.get('st') != 'ok' or not got['rows'] or got['rows'][0] != HEAD:
        return False
    return settle([render(r) for r in want['rows']]) == settle(got['rows'][1:])


def settle(rows):
    """The order of the names of one record does not matter here."""
    out, group = [], []
    for r in rows + [None]:
        if group and (r is None or r[:2] != group[0][:2] or not r[0].startswith('File record')):
            out += sorted(group)
            group = []
        if r is not None:
            if r[0].startswith('File record'):
                group.append(r)
            else:
                out.append(r)
    return out


def gen(rng, tier):
    for i in range(150 if tier == 'quick' else 3000):
        n = rng.choice([8, 12, 20]) if i % 50 else 120
        segs = gen_segs(rng, n, 'abcXY\u0430,"\u2603')
        ids = [0] * 2 + list(range(1, 90))
        for k, s in enumerate(segs):
            # one name of the preferred kind at most, so that the order of names is settled
            if s['bn']:
                s['names'] = []
            pref = [x for x in s['names'] if x['fl'] != 2][:1]
            s['names'] = pref + [x for x in s['names'] if x['fl'] == 2][:1]
            rng.shuffle(s['names'])
            for x in s['names']:
                x['id'] = rng.choice(ids)
            s['at'] = []
            for _ in range(rng.choice([0, 1, 2, 4]) if k > 3 else 0):
                q = rng.randrange(5)
                if q == 0:
                    s['at'].append({'k': 'si', 'id': rng.choice(ids)})
                elif q == 1:
                    s['at'].append({'k': 'oid', 'id': rng.choice(ids)})
                elif q == 2 and rng.random() < 0.5:
                    es = [{'w': rng.random() < 0.7, 'ok': rng.random() < 0.7, 'id': rng.randrange(1, 99)} for _ in range(rng.choice([1, 2]))]
                    if all(e['w'] and e['ok'] for e in es):     # one of a kind
                        es[1:] = []
                    s['at'].append({'k': 'ea', 'es': es})
                elif q == 3:
                    s['at'].append({'k': 'data', 'nm': rng.choice([[], [97], [98, 32], [97, 99], [0x430]]), 'res': rng.random() < 0.5, 'size': rng.choice([0, 1, 20]), 'vcn': rng.choice([0, 0, 4])})
                elif rng.random() < 0.5:
                    s['at'].append({'k': 'ir', 'ty': rng.choice([48, 48, 16]), 'es': [{'rn': rng.randrange(n), 'rs': rng.choice([1, 65535]), 'd': rng.randrange(2), 'nm': [rng.choice([97, 34, 44, 0x2603]) for _ in range(3)], 'id': rng.choice(ids), 'size': rng.randrange(1 << 30)} for _ in range(rng.choice([0, 1, 2]))]})
            s['sl'] = {'part': [], 'es': []}
            if rng.random() < 0.25:
                s['sl']['es'] = [{'pn': rng.choice([5, rng.randrange(n), 77, ntfs.FAR + 5]), 'ps': rng.choice([1, 5, 2]), 'd': rng.randrange(2), 'nm': [rng.choice([97, 98, 0x431])] * rng.randrange(1, 4), 'id': rng.randrange(1, 90), 'size': rng.randrange(1 << 30)} for _ in range(rng.choice([1, 2]))]
                if rng.random() < 0.4:
                    s['sl']['part'] = [rng.choice([97, 98, 46, 48]) for _ in range(rng.randrange(5, 9))]
        inp = {'segs': segs}
        try:
            build(inp)
        except AssertionError:      # too much for a segment
            continue
        # what is cut off at the end of a segment is not part of the input
        if any(s['sl']['es'] and 600 < 56 + sum(len(attribute(a, random.Random(1))) for a in s['at']) + 110 * len(s['names']) for s in segs):
            continue
        yield inp


GENERATORS = {'MftReport': gen}
