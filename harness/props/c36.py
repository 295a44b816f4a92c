"""C36: the reports of control blocks carved from memory (ntfs_parser --mem) and of a link tracking log (--move)."""
import datetime
import random
import struct
import uuid
import cli
from props import c10, c26, c29

ID = 'C36'
MEM = ['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']
EPOCH = datetime.datetime(1601, 1, 1)


def runs(tier):
    return [dict(module='Carving', constants={'Scope': '"%s"' % tier}, workers=3, timeout=3000)] + \
        [dict(module='LinkLog', constants={'Scope': '"%s"' % tier, 'Family': '"%s"' % f}, workers=2, heap='4g', cases=f == 'bytes') for f in ('bytes', 'types', 'wide', 'odd')]


def when(text):
    for p in ('%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%d %H:%M:%S'):
        try:
            return datetime.datetime.strptime(text, p)
        except ValueError:
            pass
    return None


def memory(inp):
    rng = random.Random(repr(inp['plan']))
    pages = []
    for p in inp['plan']:
        for _ in range(p['k']):
            b = c29.page(p, rng)
            if b is None:
                return {'st': 'impossible'}
            pages.append(b)
    return {'st': 'over', 'raw': b''.join(pages)}


def mem(inp):
    m = memory(inp)
    if m['st'] != 'over':
        return m
    try:
        t = cli.table(cli.run('ntfs_parser', ['--mem', '@img', '@out'], {'img': m['raw']}, 'out'))
    except ValueError:
        return {'st': 'rejected'}
    if not t or t[0] != MEM:
        return {'st': 'header'}
    return {'st': 'over', 'rows': t[1:]}


def move(inp):
    rng = random.Random(repr(inp))
    z = inp['size']
    if inp['ask'] not in (0, z):
        return {'st': 'impossible'}
    b = [((c26.SIGNATURE if inp['sig'] else rng.randbytes(16)) + bytes(inp['head'])).ljust(z, b'\0')]
    for s in inp['sectors']:
        b.append(b''.join(bytes(e) for e in s['e']).ljust(z - 16, b'\xA7') + bytes(s['f']))
    b.append(rng.randbytes(inp['tail']))
    try:
        t = cli.run('ntfs_parser', ['--move', '@log', '@out'], {'log': b''.join(b)}, 'out')
    except ValueError:
        return {'st': 'rejected'}
    except NotImplementedError:
        return {'st': 'unsupported'}
    return {'st': 'end', 'text': t}


def execute(inp):
    return mem(inp) if inp['_m'] == 'Carving' else move(inp)


def same(text, ticks):
    """A time as shown, and ticks of 100 ns since 1601."""
    t = when(text)
    return c10.same_time(c26.ticks(ticks), -1 if t is None else (t - EPOCH) // datetime.timedelta(microseconds=1))


def host(raw):
    raw = bytes(raw)
    dos = raw.decode('cp866')
    try:
        win = raw.decode('cp1252')
    except UnicodeDecodeError:
        return dos
    return dos if dos == win else '"%s" (cp-866), "%s" (windows-1252)' % (dos, win)


def guid(b):
    return str(uuid.UUID(bytes_le=bytes(b)))


def fields(section):
    """The lines 'label: value' of a section, '' for the parts between empty lines."""
    return [tuple(x.split(': ', 1)) if ': ' in x else (x,) for x in section.split('\n')]


def move_agrees(want, got):
    if want['st'] == 'unsupported':
        return got['st'] == 'unsupported' or not want['head']['ok'] and got['st'] == 'rejected'
    if not want['head']['ok']:
        return got['st'] == 'rejected'
    if got['st'] != 'end':
        return False
    if any(10 in x['host'] or 13 in x['host'] for x in want['out'] + [want['head']]):
        return got['text'].count('Domain-relative object ID, volume: ') == len(want['out'])     # such a host name breaks the lines of the text
    parts = got['text'].split('\n\n---\n\n')
    if parts[-1] != '' or len(parts) != len(want['out']) + 2:
        return False
    if parts[0] != 'File header:\n * Machine ID: %s\n * Volume object ID: %s' % (host(want['head']['host']), guid(want['head']['volume'])):
        return False
    for w, part in zip(want['out'], parts[1:]):
        f = fields(part)
        if [x[0] for x in f] != ['Object ID', '', 'Domain-relative object ID, volume', 'Domain-relative object ID, file', '', 'Machine ID', '', 'Birth domain-relative object ID, volume', 'Birth domain-relative object ID, file', '',
                                 'GUID timestamps:', ' * Object ID', ' * Domain-relative object ID, file', ' * Birth domain-relative object ID, file', '', 'Timestamp (range)']:
            return False
        v = [x[1] if len(x) > 1 else '' for x in f]
        if [v[0], v[2], v[3], v[5], v[7], v[8]] != [guid(w['object']), guid(w['volume']), guid(w['droid']), host(w['host']), guid(w['bvolume']), guid(w['bobject'])]:
            return False
        for shown, made in zip(v[11:14], w['made']):
            if made == [-1]:
                if when(shown) is not None:
                    return False
            elif not (lambda t: c10.same_time(c26.ticks(made), -1 if t is None else (t - datetime.datetime(1582, 10, 15)) // datetime.timedelta(microseconds=1)))(when(shown)):
                return False
        a, _, b = v[15].partition(' - ')
        if not same(a, w['from']) or not same(b, w['to']):
            return False
    return True


def agree(m, inp, want, got):
    if got['st'] == 'impossible':
        return True
    if m == 'LinkLog':
        return move_agrees(want, got)
    if want['tie']:
        return got['st'] in ('over', 'rejected')
    if want['st'] != 'over':
        return got['st'] == 'rejected'
    if got['st'] != 'over' or len(got['rows']) != len(want['at']):
        return False
    raw = memory(inp)['raw']
    for o, r in zip(want['at'], got['rows']):
        c, mt, e, a = struct.unpack_from('<QQQQ', raw, o + want['d'])
        real = struct.unpack_from('<Q', raw, o + want['a'])[0]
        if r[0] != str(struct.unpack_from('<Q', raw, o + 8)[0]):
            return False
        for shown, ticks in zip(r[1:], (mt, a, c, e, real)):
            t = when(shown)
            if t is None or abs((t - EPOCH) - datetime.timedelta(microseconds=ticks // 10)) > datetime.timedelta(microseconds=4):
                return False
    return True


def some(gen, n):
    def f(rng, tier):
        for i, x in enumerate(gen(rng, tier)):
            if i >= (n if tier == 'quick' else 20 * n):
                return
            yield x
    return f


GENERATORS = {'Carving': some(c29.gen, 60), 'LinkLog': some(c26.gen, 150)}
