"""C19: partition tables."""
import binascii
import random
import struct
import uuid
from dfir_ntfs import PartitionTable
from lib import ReadOnlyFile

ID = 'C19'


def runs(tier):
    def job(family, **kw):
        return dict(module='Partitions', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % family}, workers=4, **kw)
    return [job('gpt'), job('mbr', cases=False)]


class DiskFile(ReadOnlyFile):
    """Like a file opened for reading: what cannot be allocated is a MemoryError, what does not fit in 63 bits an OverflowError."""

    def read(self, size=-1):
        if size is not None and size >= 1 << 36:
            raise OverflowError('too large') if size >= 1 << 63 else MemoryError()
        return super(DiskFile, self).read(size)

    def seek(self, offset, whence=0):
        if offset >= 1 << 63:
            raise OverflowError('Python int too large to convert to C long')
        return super(DiskFile, self).seek(offset, whence)


def big(v):
    return 0x7FFFFFFFFFFFFFFF if v == 999999 else v


HIGH = (1 << 31) + 400     # numbers of 2^30 and more stand for ones this much larger: up to the largest that 32 bits hold


def wide(v):
    return v + HIGH if v >= 1 << 30 else v


def narrow(v):
    return v if v < 1 << 30 else v - HIGH if v >= (1 << 30) + HIGH else -1


def gpt(inp, rng):
    ss, n = inp['ss'], inp['n']
    d = bytearray(rng.randbytes(64) * (n * ss // 64))
    d[510:512] = b'\x55\xAA'
    types = [uuid.UUID(int=rng.getrandbits(128)) for _ in range(5)]
    ids = {}
    prep = []
    for h in sorted(inp['hs'], key=lambda h: h['at']):
        cnt = 0xFFFFFFFF if h['cnt'] == 1000000 else h['cnt']
        if h['es'] < 128 or cnt > 100000:
            arr = b''
        else:
            a = bytearray(cnt * h['es'])
            for e in inp['arr']:
                if e['i'] < cnt:
                    u = ids.setdefault(e['i'], (rng.choice(types), uuid.UUID(int=rng.getrandbits(128)), rng.getrandbits(64)))
                    nm = b''.join(struct.pack('<H', c) for c in e['nm'])
                    x = u[0].bytes_le + u[1].bytes_le + struct.pack('<QQQ', e['a'], e['b'], u[2]) + nm.ljust(72, b'\0')
                    if h['es'] > 128:
                        x = x.ljust(h['es'], b'\x77')
                    a[e['i'] * h['es']:e['i'] * h['es'] + len(x)] = x[:h['es']]
                else:
                    ids.setdefault(e['i'], (rng.choice(types), uuid.UUID(int=rng.getrandbits(128)), rng.getrandbits(64)))
            arr = bytes(a)
            o = h['pel'] * ss
            if o + len(arr) <= len(d) and (h['pel'] > 1 or not arr) and all(x['at'] < h['pel'] or x['at'] * ss >= o + len(arr) for x in inp['hs']):
                d[o:o + len(arr)] = arr
        acrc = binascii.crc32(arr) ^ (0 if h['acrc'] else 1 << rng.randrange(32))
        guid = uuid.UUID(int=rng.getrandbits(128))
        prep.append((h, acrc, guid, cnt))
    for h, acrc, guid, cnt in prep:
        def pack(crc):
            return struct.pack('<8sLLLLQQQQ16sQLLL', b'EFI PART', h['rev'], h['hsz'], crc, 0, h['my'], big(h['alt']), h['fu'], 150, guid.bytes_le, h['pel'], cnt, h['es'], acrc)
        sec = bytearray(rng.randbytes(ss))
        sec[:92] = pack(0)
        crc = binascii.crc32(bytes(sec[:h['hsz']]))
        if not h['crc']:
            crc ^= 1 << rng.randrange(32)
        sec[:92] = pack(crc)
        if not h['sig']:
            sec[rng.randrange(8)] ^= 0x20
        if (h['at'] + 1) * ss <= len(d):
            d[h['at'] * ss:(h['at'] + 1) * ss] = sec
    return bytes(d), ids, prep


def execute(inp):
    rng = random.Random(repr(inp))
    if inp['k'] == 'gpt':
        d, ids, prep = gpt(dict(inp, ss=inp['ss'] // 512 * 512 or 512), rng)
        f = DiskFile(d)
        if inp['ss'] < 512 or inp['ss'] % 512:
            f = DiskFile(bytes(3 * 16384 + 3 * inp['ss']))
        try:
            p = PartitionTable.GPT(f, inp['ss'])
            h = p.read_gpt_header()
            if not [x for x in prep if (x[2], x[0]["fu"], 150, x[0]['pel'], x[0]['cnt'], x[0]['es'], x[1]) == (h.disk_guid, h.first_usable_lba, h.last_usable_lba, h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)]:
                return {'st': 'header', 'h': repr(h)}
            q = p.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)
        except (ValueError, OverflowError) as e:
            return {'st': 'rejected', 'backup': None, 'parts': []}
        # An array that does not fit, or is not the one that the checksum is of, is not trusted here either.
        a = [h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32]
        nothing = binascii.crc32(b'')
        for odd in ([a[0], a[1], a[2], a[3] ^ 1], [1, a[1], a[2], a[3]], [0, 1, 128, binascii.crc32(d[:128])], [1, 4, 128, binascii.crc32(d[inp['ss']:inp['ss'] + 512])], [inp['n'] - 1, 1, 128, binascii.crc32(d[(inp['n'] - 1) * inp['ss']:][:128])],
                    [inp['n'] - 2, 3 * inp['ss'] // 128, 128, binascii.crc32(d[(inp['n'] - 2) * inp['ss']:])], [a[0], 1, 192, binascii.crc32(d[a[0] * inp['ss']:][:192])], [a[0], 1, 64, binascii.crc32(d[a[0] * inp['ss']:][:64])], [a[0], 5, 0, nothing]):
            if not odd[1]:
                continue
            try:
                p.read_gpt_partitions(*odd)
            except (ValueError, OverflowError):
                continue
            return {'st': 'untrusted array read', 'odd': odd}
        parts = []
        for x in q:
            i = [i for i in ids if ids[i][1] == x.unique_partition_guid]
            if not i or ids[i[0]] != (x.partition_type_guid, x.unique_partition_guid, x.attributes):
                return {'st': 'entry', 'x': repr(x)}
            nm = x.partition_name.encode('utf-16le', 'surrogatepass')
            parts.append({'i': i[0], 'a': x.starting_lba, 'b': x.ending_lba, 'nm': [nm[j] + 256 * nm[j + 1] for j in range(0, len(nm), 2)]})
        return {'st': 'over', 'backup': h.location, 'parts': parts}
    ss, n = inp['ss'], inp['n']
    d = bytearray(max(n * ss, 512 if ss < 512 else 0))
    sig = rng.choice([0, 0x12345678, 0xFFFFFFFF])
    code = rng.choice([b'\x33\xC0', b'\0\0', b'\x33\0', b'\0\xC0', b'\1\1'])
    d[:2] = code
    d[440:444] = struct.pack('<L', sig)
    d[510:512] = b'\x55\xAA'

    def entry(f, t, s, z, chs=None):
        c = [rng.randbytes(3), rng.randbytes(3)] if chs is None else chs
        return struct.pack('<B3sB3sLL', f, c[0], t, c[1], s, z), c
    chs = []
    for i, t in enumerate(inp['tab']):
        d[446 + 16 * i:462 + 16 * i], c = entry(t['f'], t['t'], wide(t['s']), wide(t['z']))
        chs.append(c)
    for r in inp['ebrs']:
        o = r['at'] * ss
        if r['at'] == 0 or o + 512 > len(d):
            continue
        d[o:o + 512] = b'\x90' * 512
        d[o + 446:o + 462] = entry(r['f'], r['t'], wide(r['rel']), wide(r['z']))[0]
        d[o + 462:o + 478] = entry(0, 5 if r['nxt'] else 0, r['nxt'], 9)[0]
        d[o + 478:o + 510] = bytes(32)
        d[o + 510:o + 512] = b'\x55\xAA' if r['sig'] else rng.choice([b'\0\0', b'\xAA\x55', b'\x55\0'])
    f = DiskFile(bytes(d))
    if ss >= 512 and n >= 2:     # no signature, no table
        e = bytearray(d)
        e[510:512] = rng.choice([b'\0\0', b'\xAA\x55', b'\x55\0', b'\0\xAA'])
        try:
            PartitionTable.MBR(DiskFile(bytes(e)), ss).read_mbr()
        except ValueError:
            pass
        else:
            if ss % 512 == 0:
                return {'st': 'no signature'}
    try:
        m = PartitionTable.MBR(f, ss)
        x = m.read_mbr()
    except ValueError:
        return {'st': 'rejected', 'backup': 0, 'parts': []}
    if x.disk_signature != sig or x.is_boot_code_present != (0 not in code):
        return {'st': 'mbr', 'x': repr(x)}
    out = []
    used = [i for i, t in enumerate(inp['tab']) if t['t']]
    prim = m.read_mbr_partitions()
    for k, q in enumerate(prim):
        if k < len(used) and [q.starting_chs, q.ending_chs] != chs[used[k]]:
            return {'st': 'chs'}
        out.append({'t': q.os_type, 's': narrow(q.starting_lba), 'z': narrow(q.size_in_lba), 'f': q.boot_indicator, 'lg': False})
    for q in m.read_ebr_partitions():
        out.append({'t': q.os_type, 's': narrow(q.starting_lba), 'z': narrow(q.size_in_lba), 'f': q.boot_indicator, 'lg': True})
    return {'st': 'over', 'backup': 0, 'parts': out}


def agree(m, inp, want, got):
    return want['st'] == got['st'] and (want['st'] == 'rejected' or (want['backup'] == got['backup'] and want['parts'] == got['parts']))


def gen(rng, tier):
    for _ in range(1500 if tier == 'quick' else 20000):
        ss = rng.choice([512, 1024, 4096])
        if rng.random() < 0.5:
            a = 16384 // ss
            n = rng.choice([3 + 2 * a, 3 + 2 * a + 1, 3 + 2 * a - 1, 4 * a + 30])
            arr = []
            for i in sorted(rng.sample(range(0, 140), rng.choice([0, 1, 3, 10] * 5 + [60, 128, 140]))):
                nm = [rng.choice([0, 65, 0x430, 0xD83D, 0xDE00, 0xFFFE, 0xFFFF]) for _ in range(rng.choice([0, 1, 4, 36]))]
                if rng.random() < 0.5:
                    nm = [rng.choice([65, 0x430, 0x20, 0xE000]) for _ in range(rng.choice([1, 8, 36]))] + []
                arr.append({'i': i, 'a': rng.choice([0, 34, rng.getrandbits(30)]), 'b': rng.getrandbits(30), 'nm': nm[:36]})

            def head(at, alt, pel):
                h = {'at': at, 'sig': True, 'rev': 65536, 'hsz': rng.choice([92, 92, 96, ss]), 'crc': True, 'my': at, 'alt': alt, 'fu': 2 + a, 'pel': pel, 'cnt': 128, 'es': 128, 'acrc': True}
                if rng.random() < 0.3:
                    h['es'] = rng.choice([256, 384])
                    h['cnt'] = min(h['cnt'], 16384 // h['es'])
                if rng.random() < 0.3:
                    h['cnt'] = rng.choice([0, 1, 2, 64, 127, 1000000])
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    k = rng.choice(list(h))
                    if k in ('sig', 'crc', 'acrc'):
                        h[k] = False
                    elif k == 'rev':
                        h[k] = rng.choice([0, 1])
                    elif k == 'hsz':
                        h[k] = rng.choice([0, 91, 93, ss, ss + 1])
                    elif k == 'my':
                        h[k] = rng.choice([0, 1, at + 1, at - 1, n - 1])
                    elif k == 'alt':
                        h[k] = rng.choice([0, 1, at, n - 1, n, n // 2, 999999])
                    elif k == 'fu':
                        h[k] += rng.choice([-1, 0, 1])
                    elif k == 'pel':
                        h[k] = rng.choice([0, 1, 2, 3, n - 1, n - 2, n])
                        if h[k] in (n - 2,):
                            h['cnt'] = rng.choice([1, 4])
                    elif k == 'es':
                        h[k] = rng.choice([0, 64, 127, 129, 192])
                return h
            hs = [head(1, n - 1, 2), head(n - 1, 1, n - 1 - a)]
            if rng.random() < 0.3 and n > 3 * a + 20:
                hs[0]['alt'] = n // 2 + 3
                hs.insert(1, head(n // 2 + 3, 1, n // 2 + 4))
            # arrays and headers must not overwrite one another
            spans, ok = [], True
            for h in hs:
                spans.append((h['at'], h['at'] + 1))
                if h['es'] >= 128 and h['cnt'] < 100000 and 1 < h['pel'] < n - 1 and h['pel'] * ss + h['cnt'] * h['es'] <= n * ss and h['cnt']:
                    spans.append((h['pel'], h['pel'] + -(-h['cnt'] * h['es'] // ss)))
            spans.sort()
            if any(x[1] > y[0] for x, y in zip(spans, spans[1:])):
                continue
            yield {'k': 'gpt', 'ss': ss, 'n': n, 'hs': hs, 'arr': arr}
        else:
            n = rng.choice([1, 2, 3, 40, 100])
            top = (1 << 31) - 401

            def size():
                return rng.choice([0, 1, top, rng.randrange(top)])
            tab = [{'t': rng.choice([0, 7, 0xEE, 5, 0xF, 0x85, 0xEF, 0x82, 0xC5, 0xFF]), 's': rng.choice([0, 1, 2, rng.randrange(1, n + 20), rng.randrange(1, n + 20), top, rng.randrange(top)]), 'z': size(), 'f': rng.choice([0, 0x80, 1])} for _ in range(4)]
            at = rng.sample(range(1, n + 4), min(n, rng.choice([1, 3, 8])))
            first = rng.choice([t['s'] for t in tab])
            ebrs = [{'at': x, 'sig': rng.random() < 0.93, 't': rng.choice([0, 7, 0x83, 5]), 'rel': rng.choice([0, 1, 63, rng.randrange(1 << 30), rng.randrange(top), top]), 'z': size(), 'f': rng.choice([0, 0x80]), 'nxt': max(0, rng.choice([0] + at) - first) if rng.random() < 0.8 else rng.randrange(n + 5)} for x in at]
            if rng.random() < 0.5:
                for t in tab:
                    if t['t'] in (5, 0xF, 0x85):
                        t['s'] = rng.choice(at)
            yield {'k': 'mbr', 'ss': ss, 'n': n, 'tab': tab, 'ebrs': ebrs}
    for k in (20, 33, 70, 128, 140, 300):      # long chains of logical partitions
        at = rng.sample(range(2, 2 * k + 2), k)
        first = min(at)
        at.remove(first)
        at.insert(0, first)
        yield {'k': 'mbr', 'ss': 512, 'n': 2 * k + 4, 'tab': [{'t': 7, 's': 1, 'z': 5, 'f': 0x80}, {'t': 0xF, 's': first, 'z': 9, 'f': 0}, {'t': 0, 's': 0, 'z': 0, 'f': 0}, {'t': 0x83, 's': 3, 'z': 8, 'f': 0}],
               'ebrs': [{'at': x, 'sig': True, 't': 7, 'rel': 63, 'z': 100 + i, 'f': 0, 'nxt': (y - first) if y else 0} for i, (x, y) in enumerate(zip(at, at[1:] + [0]))]}


GENERATORS = {'Partitions': gen}
