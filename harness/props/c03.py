"""C03: update sequence arrays."""
import binascii, struct
from dfir_ntfs import MFT, Attributes, LogFile
import lib, ntfs

ID = 'C03'
LAY = '{[attr |-> TRUE, endp |-> 504, ffb |-> 512], [attr |-> TRUE, endp |-> 504, ffb |-> 513], [attr |-> FALSE, endp |-> 0, ffb |-> 480], [attr |-> TRUE, endp |-> 800, ffb |-> 808], [attr |-> TRUE, endp |-> 1000, ffb |-> 1024], [attr |-> TRUE, endp |-> 1000, ffb |-> 1025]}'
LAY8 = '{[attr |-> TRUE, endp |-> 1016, ffb |-> 1024], [attr |-> TRUE, endp |-> 1032, ffb |-> 1040], [attr |-> TRUE, endp |-> 2000, ffb |-> 2049], [attr |-> FALSE, endp |-> 0, ffb |-> 300], [attr |-> TRUE, endp |-> 4080, ffb |-> 4088]}'


def runs(tier):
    ok, lo, hi, no = '<<1, 2>>', '<<1, 9>>', '<<9, 2>>', '<<101, 199>>'
    r = [dict(module='USA', constants={'Kinds': '{"frs", "idx", "idx1", "rec"}', 'Ns': '{2}', 'UOffs': '{0, 7, 8, 39, 40, 41, 42, 46, 48, 100, 480, 505, 506, 507, 508, 1018}' if tier == 'thorough' else '{7, 8, 40, 41, 42, 47, 48, 480, 505, 506, 507}',
              'USizeDeltas': '{-2, -1, 0, 1}', 'TailVals': '{%s, %s, %s, %s}' % (ok, lo, hi, no), 'Layouts': LAY, 'Crcs': '{"none"}'}),
         dict(module='USA', cases=False, constants={'Kinds': '{"frs", "idx", "rec", "rst"}', 'Ns': '{8}', 'UOffs': '{48, 500}' if tier == 'quick' else '{42, 48, 200, 500, 506}',
              'USizeDeltas': '{0}', 'TailVals': '{%s, %s}' % (ok, no), 'Layouts': LAY8, 'Crcs': '{"none", "good", "bad"}'})]
    if tier == 'thorough':
        r.append(dict(module='USA', cases=False, workers=8, constants={'Kinds': '{"frs"}', 'Ns': '{2}', 'UOffs': '{42, 48}',
                      'USizeDeltas': '{0}', 'TailVals': '{%s, %s, %s}' % (ok, lo, hi),
                      'Layouts': '{[attr |-> TRUE, endp |-> e, ffb |-> f] : e \\in {104, 504, 512, 520, 1000}, f \\in 41..1030}', 'Crcs': '{"none"}'}))
    return r


def image(inp, header):
    n = inp['n']
    b = bytearray((i * 7 + i // 256) % 251 for i in range(n * 512))
    b[0:len(header)] = header
    struct.pack_into('<HH', b, 4, inp['uoff'], inp['usz'])
    arr = bytes(inp['usn']) + b''.join(bytes(u) for u in inp['upd'])
    return b, arr


def finish(b, inp, arr):
    """Array, then tails on top (as in the model); arrays out of the structure are left out."""
    n = inp['n']
    if inp['uoff'] >= 8:
        for k, v in enumerate(arr):
            if inp['uoff'] + k < len(b):
                b[inp['uoff'] + k] = v
    for s in range(n):
        b[s * 512 + 510:s * 512 + 512] = bytes(inp['tails'][s])
    if inp['crc'] in ('good', 'bad'):
        u, z = inp['uoff'], inp['usz'] * 2
        # the checksum is taken with the array zeroed
        t = bytearray(b)
        t[u:u + z] = bytes(z)
        c = binascii.crc32(bytes(t))
        if inp['crc'] == 'good':
            struct.pack_into('<L', b, u, c)
            b[u + 4:u + 8] = b'CRC4'
    return bytes(b)


def execute(inp):
    n = inp['n']
    kind = inp['kind']
    size = n * 512
    rej = {'st': 'reject', 'tails': []}
    if kind == 'frs':
        lay = inp['lay']
        fao = ntfs.align8(inp['uoff'] + inp['usz'] * 2)
        hdr = ntfs.frs_header(64, max(inp['uoff'], 48), n, fao=fao, ffb=lay['ffb'], declared=size)
        b, arr = image(inp, hdr[:42])
        b[:4] = inp['sig'].encode()
        endp = max(fao + 24, lay['endp']) if lay['attr'] else fao
        vis = False
        if fao + 24 <= size:
            vis = True
            if lay['attr']:
                vl = endp - fao - 24
                struct.pack_into('<LLBBHHH', b, fao, 0x80, endp - fao, 0, 0, 24, 0, 0)
                if fao + 24 <= len(b):
                    struct.pack_into('<LHBB', b, fao + 16, vl, 24, 0, 0)
            if endp + 8 <= len(b):
                struct.pack_into('<LL', b, endp, 0xFFFFFFFF, 0)
        raw = finish(b, inp, arr)
        try:
            f = MFT.FileRecordSegment(raw)
        except MFT.MasterFileTableException:
            return rej
        if endp >= lay['ffb']:
            return {'st': 'ok', 'tails': [[]] * n}
        val = None
        got = list(f.attributes())
        if lay['attr']:
            val = bytes(got[0].value)
        slack = f.get_slack()
        slack = bytes(slack.value) if slack is not None else b''
        soff = size - len(slack)
        tails = []
        for s in range(1, n + 1):
            t = s * 512 - 2
            if lay['attr'] and fao + 24 <= t < endp:
                tails.append(list(val[t - fao - 24:t - fao - 22]))
            elif t >= endp + 4:
                tails.append(list(slack[t - soff:t - soff + 2]))
            else:
                tails.append([])
        return {'st': 'ok', 'tails': tails}
    if kind in ('idx', 'idx1'):
        hdr = b'INDX' + struct.pack('<HHQQLLLL', 0, 0, 5, 7, 16, 16, size - 24, 0)[:36]
        b, arr = image(inp, hdr)
        raw = finish(b, inp, arr)
        b2, arr2 = image(dict(inp, uoff=48, usz=n + 1), hdr)
        good = finish(b2, dict(inp, uoff=48, usz=n + 1, tails=[inp['usn']] * n), arr2)
        img = good + raw + good if kind == 'idx' else raw + good
        ff = MFT.FragmentedFile(lib.ReadOnlyFile(img), 0, 512, [(0, len(img) // 512)], len(img))
        ia = Attributes.IndexAllocation(ff)
        bufs = list(ia.index_buffers())
        if kind == 'idx':
            if len(bufs) == 2:
                return rej
            if len(bufs) != 3:
                return {'st': 'buffers:%d' % len(bufs), 'tails': []}
            x = bufs[1]
        else:
            if len(bufs) == 0:
                return rej
            if len(bufs) != 2:
                return {'st': 'buffers:%d' % len(bufs), 'tails': []}
            x = bufs[0]
        sl = bytes(x.get_slack())
        off = size - len(sl)
        return {'st': 'ok', 'tails': [list(sl[s * 512 - 2 - off:s * 512 - off]) for s in range(1, n + 1)]}
    if kind == 'rec':
        b, arr = image(inp, b'RCRD' + bytes(4))
        raw = finish(b, inp, arr)
        try:
            p = LogFile.LogRecordPage(raw, 2, ntfs.align8(inp['uoff'] + 2 * inp['usz']))
        except LogFile.LogFileException:
            return rej
        return {'st': 'ok', 'tails': [list(p.buf[s * 512 - 2:s * 512]) for s in range(1, n + 1)]}
    if kind == 'rst':
        b, arr = image(inp, b'RSTR' + bytes(4) + struct.pack('<QLLHHHxx', 77, 4096, 4096, 2048, 1, 1))
        raw = finish(b, inp, arr)
        try:
            p = LogFile.RestartPage(raw)
        except LogFile.LogFileException:
            return rej
        return {'st': 'ok', 'tails': [list(p.buf[s * 512 - 2:s * 512]) for s in range(1, n + 1)]}
    raise lib.MachineryError(kind)


def gen(rng, tier):
    for _ in range(2000 if tier == 'quick' else 30000):
        kind = rng.choice(['frs', 'frs', 'idx', 'idx1', 'rec', 'rst'])
        n = 8 if kind == 'rst' else rng.choice([2, 8] if kind == 'frs' else [2, 3, 4, 8, 16])
        usn = [rng.randrange(256), rng.randrange(256)] if rng.random() < 0.9 else rng.choice([[0, 0], [255, 255], [1, 0]])
        uoff = rng.choice([42, 48, 48, 56, rng.randrange(42, 507), rng.randrange(30, 515)])
        if kind == 'rst' and uoff < 40:
            uoff = 48
        crc = 'none'
        if kind in ('rec', 'rst') and n >= 3 and rng.random() < 0.3 and uoff <= 506 - 2 * n and uoff >= 48:
            crc = rng.choice(['good', 'bad'])
        def tail():
            r = rng.random()
            return list(usn) if r < 0.85 else [usn[0], usn[1] ^ 1] if r < 0.9 else [usn[0] ^ 128, usn[1]] if r < 0.93 else rng.choice([[0, 0], [255, 255]]) if r < 0.96 else [rng.randrange(256), rng.randrange(256)]
        x = {'kind': kind, 'n': n, 'uoff': uoff, 'usz': n + 1 if rng.random() < 0.93 or kind == 'idx1' or crc != 'none' else rng.choice([0, 1, n, n + 2]), 'usn': usn,
             'upd': [[rng.randrange(256), rng.randrange(256)] for _ in range(n)], 'tails': [tail() for _ in range(n)], 'crc': crc, 'sig': rng.choice(['FILE'] * 14 + ['BAAD'] * 3 + ['CHKD'] * 2 + ['HOLE']) if kind == 'frs' else 'FILE',
             'lay': {'attr': rng.random() < 0.9, 'endp': rng.randrange(8, n * 64 - 1) * 8, 'ffb': 0}}
        fao = ntfs.align8(uoff + x['usz'] * 2)
        endp = max(fao + 24, x['lay']['endp']) if x['lay']['attr'] else fao
        if endp > n * 512 - 16:
            x['lay']['endp'] = endp = max(fao + 24, n * 512 - 16)
        if kind == 'frs' and any(a <= t < a + w for t in range(510, n * 512, 512) for a, w in ((fao - 1, 22), (endp - 1, 9))):
            continue  # a sector tail would fall on the header fields themselves
        x['lay']['ffb'] = endp + rng.choice([8, 8, 8, 1, 5, 16, n * 512 - endp])
        yield x


GENERATORS = {'USA': gen}
