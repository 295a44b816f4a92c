"""C28: the evidence is only positioned and read, and the same question gets the same answer at any time."""
import functools
import gzip
import hashlib
import io
import os
import random
import tarfile
from dfir_ntfs import Attributes, BootSector, LogFile, MFT, MoveTable, PartitionTable, ShadowCopy, USN
from dfir_ntfs.addons import FAT, exFAT
import lib
import vss

ID = 'C28'
FAT.WARN_FUNC = lambda *a: None
DATA = os.path.join(lib.REPO, 'test_data')


class Evidence(object):
    """A file object that gives what it holds and records what else it is asked for."""

    def __init__(self, data):
        self._d = data
        self._p = 0
        self._odd = set()
        self._other = None

    def seek(self, offset, whence=0):
        p = offset + (0, self._p, len(self._d))[whence]
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self._p = p
        return p

    def tell(self):
        return self._p

    def read(self, size=-1):
        b = self._d[self._p:] if size is None or size < 0 else self._d[self._p:self._p + size]
        self._p += len(b)
        return b

    def _asked(name):
        def f(self, *a, **k):
            self._odd.add(name)
            return None
        return f
    for _n in ('write', 'writelines', 'truncate', 'flush', 'close', 'detach', '__enter__', '__exit__', '__del__x'):
        locals()[_n] = _asked(_n)
    closed = False


@functools.lru_cache(None)
def load(name):
    with open(os.path.join(DATA, name), 'rb') as f:
        d = f.read()
    return gzip.decompress(d) if name.endswith('.gz') else d


def text(x):
    """An answer in full, as text."""
    if x is None or isinstance(x, (int, str, bytes, bool, float)):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ','.join(map(text, x)))
    if isinstance(x, dict):
        return text(sorted((text(k), text(v)) for k, v in x.items()))
    if type(x).__module__ in ('datetime', 'uuid'):
        return repr(x)
    if isinstance(x, MFT.FileRecord):
        r = [x.get_master_file_table_number(), x.get_sequence_number(), x.is_in_use(), x.get_flags()]
        try:
            for a in x.attributes(True):
                r.append(dict((k, v) for k, v in vars(a).items()))
        except MFT.MasterFileTableException as e:
            r.append(type(e).__name__)
        try:
            r.append([(y[0], list(y[1:])) for y in x.get_data_runs()])
        except (MFT.MasterFileTableException, TypeError, ValueError) as e:
            r.append(type(e).__name__)
        return text(r)
    d = getattr(x, '__dict__', None)
    if d is not None:
        return type(x).__name__ + text(dict((k, v) for k, v in d.items()))
    return repr(x)


def short(x):
    return hashlib.sha256(text(x).encode('utf-8', 'surrogatepass')).hexdigest()


def tried(f):
    try:
        return f()
    except (ValueError, NotImplementedError, MFT.MasterFileTableException, ShadowCopy.ShadowCopyException, FAT.FileSystemException, exFAT.FileSystemException) as e:
        return [type(e).__name__, str(e)]


# ---- the kinds: how a parser is made, its plain calls, its enumerations

class Mft(object):
    files = ['slack.mft', 'orphan.mft', 'deleted.mft']

    def make(self, f):
        return MFT.MasterFileTableParser(f)

    runs = [lambda p: [tried(lambda: p.get_file_record_by_number(i)) for i in (0, 5, 3, 37, 38, 39, 40, 41, 1000)],
            lambda p: [tried(lambda: p.get_file_record_by_path(x)) for x in ('/$Secure', '/$Extend/$ObjId', '/none', '/', '/$extend/$quota')],
            lambda p: [tried(lambda: p.build_full_paths(r)) for r in p.file_records()] + [tried(lambda: p.build_full_paths(r, True)) for r in p.file_records()],
            lambda p: [[[list(y) if isinstance(y, tuple) else y for y in s.carve(True)] for s in r.slack()] for r in p.file_records()]]
    enums = [lambda p: p.file_records(), lambda p: p.file_records(True)]
    alone = False


class Volume(object):
    files = ['ntfs3_attrlist.raw.gz']

    def make(self, f):
        v = MFT.FileSystemParser(f)
        return f, v, MFT.MasterFileTableParser(v)

    def read_file(p, r):
        f, v, m = p
        runs = r.get_data_runs()
        if runs is None:
            return None
        x = MFT.FragmentedFile(f, 0, v.cluster_size, runs[0] if isinstance(runs, tuple) else runs, r.get_data_size())
        x.seek(3)
        return [x.read(700), x.tell(), x.seek(-5, 2), x.read()]

    def place(p, at, n):
        p[1].seek(at)
        return [p[1].tell(), p[1].read(n), p[1].tell()]

    runs = [lambda p: [tried(lambda: Volume.read_file(p, r)) for r in p[2].file_records() if r.get_master_file_table_number() in (0, 1, 2, 6, 10, 64, 65, 66)],
            lambda p: [Volume.place(p, 1024 * 5, 48), Volume.place(p, 1000, 2000), Volume.place(p, 0, 1)],
            lambda p: tried(lambda: p[2].get_file_record_by_path('/$Extend'))]
    enums = [lambda p: p[2].file_records()]
    alone = False


class Log(object):
    files = ['LogFile_10.bin', 'LogFile_10_downgraded.bin']

    def make(self, f):
        return LogFile.LogFileParser(f)

    def rec(x):
        r = [type(x).__name__, getattr(x, 'lsn', None), getattr(x, 'transaction_id', None)]
        if isinstance(x, LogFile.NTFSLogRecord):
            r += [x.get_redo_operation(), x.get_undo_operation(), x.get_redo_data(), x.get_undo_data(), x.get_target_attribute(), x.calculate_mft_target_number(), x.calculate_mft_target_reference_and_name()]
        return r
    runs = [lambda p: len(list(p.parse_ntfs_records()))]
    enums = [lambda p: map(Log.rec, p.parse_ntfs_records()), lambda p: map(Log.rec, p.parse_ntfs_records(False))]
    alone = True


class Usn(object):
    files = ['usnjrnlj.bin']

    def make(self, f):
        return USN.ChangeJournalParser(f)
    runs = [lambda p: [(u.get_usn(), u.get_reason(), u.get_file_reference_number()) for u in p.usn_records()]]
    enums = [lambda p: (str(vars(u)) for u in p.usn_records())]
    alone = False


class Moves(object):
    files = ['tracking_3_move_to.bin', 'tracking_4kn.bin']

    def make(self, f):
        return MoveTable.MoveTableParser(f)
    runs = [lambda p: [p.get_header().get_flags(), p.get_header().get_expansion_data(), p.get_header().get_extended_header()]]
    enums = [lambda p: p.log_entries(), lambda p: p.log_sectors()]
    alone = False


class Parts(object):
    files = ['gpt-512-3p.raw.gz', 'mbr-512-p1e2.bin.gz']

    def make(self, f):
        return PartitionTable.GPT(f, 512) if len(f._d) == len(load('gpt-512-3p.raw.gz')) else PartitionTable.MBR(f, 512)

    def gpt(p):
        h = p.read_gpt_header()
        return [h, p.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)]

    def call(p, n):
        if isinstance(p, PartitionTable.GPT):
            return tried(p.read_gpt_header if n == 0 else lambda: Parts.gpt(p))
        return tried((p.read_mbr, p.read_mbr_partitions, p.read_ebr_partitions)[n])
    runs = [lambda p: Parts.call(p, 0), lambda p: Parts.call(p, 1), lambda p: Parts.call(p, 2)]
    enums = []
    alone = False


class Fat(object):
    files = ['fat_deleted_dir_2.raw.gz', 'fat16_moved.raw.gz']

    def make(self, f):
        return FAT.FileSystemParser(f)
    runs = [lambda p: [tried(lambda: p.read_chain(i, 3000)) for i in (3, 4, 9)],
            lambda p: [tried(lambda: p.fat.chain(i)) for i in range(2, 40)] + [tried(lambda: p.fat.get_element(i)) for i in range(0, 40)] + [p.fat.is_volume_dirty(), p.fat.get_bpb_media()]]
    enums = [lambda p: p.walk(), lambda p: p.walk('cp866', True)]
    alone = False


class Exfat(object):
    files = ['exfat_encrypted.raw.gz', 'win_exfat_7.raw.gz']

    def make(self, f):
        return exFAT.FileSystemParser(f)
    runs = [lambda p: [tried(lambda: p.read_chain(i, 3000)) for i in (2, 4, 9)] + [tried(lambda: p.read_chain(4, 300, True))],
            lambda p: [tried(lambda: p.fat.chain(i)) for i in range(2, 40)] + [tried(lambda: p.fat.get_element(i)) for i in range(0, 40)]]
    enums = [lambda p: p.walk(), lambda p: p.walk(True)]
    alone = False


OPS = [dict(o='snap', u=[], nul=False), dict(o='write', b=1), dict(o='write', b=2), dict(o='snap', u=[], nul=False), dict(o='write', b=2), dict(o='write', b=3), dict(o='snap', u=[], nul=False), dict(o='write', b=1)]


@functools.lru_cache(None)
def shadow_images():
    pb, sb, _, _ = vss.write(OPS, 3, [10, 11, 20], 30 * vss.BS, two=True, rng=random.Random(5))
    return flat(pb), flat(sb)


def flat(blocks):
    d = bytearray(max(31, max(blocks) + 1) * vss.BS)
    for b, x in blocks.items():
        d[b * vss.BS:(b + 1) * vss.BS] = x
    return bytes(d)


@functools.lru_cache(None)
def shadow_image():
    pb, _, _, _ = vss.write(OPS, 3, [10, 11, 20], 30 * vss.BS, rng=random.Random(5))
    return flat(pb)


class Shadow(object):
    files = ['']

    def make(self, f):
        return ShadowCopy.ShadowParser(f)

    def view(p, n):
        p.select_shadow(n)
        r = []
        for at, k in ((10 * vss.BS - 5, 20), (12 * vss.BS - 7, 9000), (20 * vss.BS + 512, 513), (29 * vss.BS, None)):
            r += [p.seek(at), p.read(k), p.tell()]
        return r
    runs = [lambda p: list(p.shadows()), lambda p: Shadow.view(p, 1), lambda p: Shadow.view(p, 2), lambda p: Shadow.view(p, 3), lambda p: tried(lambda: p.select_shadow(9))]
    enums = [lambda p: p.shadows()]
    alone = False


class Shadow2(Shadow):
    def make(self, f):
        if f._other is None:
            f._other = Evidence(shadow_images()[1])
        return ShadowCopy.ShadowParserTwoVolumes(f, f._other)


class Fcb(object):
    files = ['fcb.bin']

    def make(self, f):
        return MFT.MetadataCarver(f)
    runs = [lambda p: tried(lambda: len(list(p.carve_fcb_timestamps())))]
    enums = [lambda p: p.carve_fcb_timestamps()]
    alone = True


@functools.lru_cache(None)
def fcb_image(other):
    d = load('fcb.bin')
    k = d.index(b'\x02\x07')
    shifted = (d[:k + 16] + bytes(6) + d[k + 16:])[:512]
    out = ([d] * 40 + [d[:150] + bytes(362)] * 5, [shifted, d, d] * 10, [shifted, d] * 15, [shifted] * 60 + [d] * 100)[other]
    return b''.join(x.ljust(512, b'\0') for x in out)


KINDS = {'mft': Mft, 'volume': Volume, 'log': Log, 'usn': Usn, 'moves': Moves, 'parts': Parts, 'fat': Fat, 'exfat': Exfat, 'shadow': Shadow, 'fcb': Fcb, 'shadow2': Shadow2}


def image(kind, n):
    K = KINDS[kind]
    if kind == 'shadow':
        return shadow_image()
    if kind == 'shadow2':
        return shadow_images()[0]
    if kind == 'fcb':
        return fcb_image(n)
    return load(K.files[n % len(K.files)])


class Calls(object):
    """The operations of a parser, by number."""

    def __init__(self, kind):
        self.K = KINDS[kind]

    def run(self, p, o):
        return short(self.K.runs[o - 1](p))

    def enum(self, p, o):
        return iter(self.K.enums[o - 1 - len(self.K.runs)](p))


def advance(it, seen, n):
    """Up to n items of an enumeration; an error ends it."""
    while n != 0:
        try:
            x = next(it)
        except StopIteration:
            return False
        except (ValueError, NotImplementedError, MFT.MasterFileTableException) as e:
            seen.append(repr(e))
            return False
        seen.append(short(x))
        n -= 1
    return True


@functools.lru_cache(None)
def alone(kind, n, o):
    """The answer of a parser that was asked nothing else, by an evidence file that nothing else reads."""
    f = Evidence(image(kind, n))
    p = KINDS[kind]().make(f)
    c = Calls(kind)
    if o <= len(KINDS[kind].runs):
        return c.run(p, o)
    seen = []
    advance(c.enum(p, o), seen, -1)
    return tuple(seen)


def runs(tier):
    def sets(names):
        return '{%s}' % ', '.join('[k |-> "%s", runs |-> %d, all |-> %d, alone |-> %s]' % (k, len(KINDS[k].runs), len(KINDS[k].runs) + len(KINDS[k].enums), 'TRUE' if KINDS[k].alone else 'FALSE') for k in names)
    q = tier == 'quick'
    out = []
    for names, n in ((['mft', 'volume'], 2 if q else 3), (['log', 'usn', 'moves'], 3 if q else 4), (['fat', 'exfat'], 2 if q else 3), (['parts', 'shadow', 'shadow2', 'fcb'], 3 if q else 4)):
        out.append(dict(module='Sessions', constants={'Scope': '"%s"' % tier, 'MaxLen': str(n), 'Sets': sets(names)}, workers=2, heap='3g', cases=False))
    out.append(dict(module='Sessions', constants={'Scope': '"none"', 'MaxLen': '0', 'Sets': sets(sorted(KINDS))}, workers=2, heap='3g'))
    return out


def execute(inp):
    kind = inp['k']
    rng = random.Random(repr(inp))
    n = rng.randrange(4)
    data = image(kind, n)
    mark = hashlib.sha256(data).digest() if rng.random() < 0.05 else None
    f = Evidence(data)
    c = Calls(kind)
    ps = {}

    def parser(g):
        if g not in ps:
            ps[g] = KINDS[kind]().make(f)
        return ps[g]
    open_, answers = [], []

    def rest(e):
        advance(e[2], e[3], -1)
        answers.append([e[0], e[1], 'same' if tuple(e[3]) == alone(kind, n, e[1]) else 'other'])
    for s in inp['plan']:
        a, g, o = s['a'], s['g'], s['o']
        if rng.random() < 0.3:
            f.seek(rng.randrange(len(data)))    # whoever else uses the file object leaves it anywhere
        if a == 'run':
            answers.append([g, o, 'same' if c.run(parser(g), o) == alone(kind, n, o) else 'other'])
        elif a == 'open':
            e = [g, o, c.enum(parser(g), o), []]
            open_.append(e)
            advance(e[2], e[3], rng.choice([1, 1, 3, 30]))
        elif a == 'step':
            advance(open_[g - 1][2], open_[g - 1][3], rng.choice([1, 2, 20]))
        elif a == 'rest':
            rest(open_.pop(g - 1))
        elif a == 'drop':
            x = open_.pop(g - 1)[2]
            if hasattr(x, 'close'):
                x.close()
            del x
    for e in open_:
        rest(e)
    ps.clear()
    odd = sorted(f._odd | (f._other._odd if f._other else set()))
    return {'answers': answers, 'intact': mark is None or hashlib.sha256(data).digest() == mark, 'asked': odd}


def gen(rng, tier):
    for _ in range(400 if tier == 'quick' else 6000):
        k = rng.choice(sorted(KINDS))
        K = KINDS[k]
        r, e = len(K.runs), len(K.enums)
        plan, open_ = [], []
        for _ in range(rng.randrange(3, 9 if tier == 'quick' else 16)):
            g = rng.randrange(1, 3)
            acts = []
            if not K.alone or all(x[0] != g for x in open_):
                acts += ['run'] * 2 + ['open'] * (2 if e else 0)
            if open_:
                acts += ['rest', 'drop']
            ok = [i for i, x in enumerate(open_) if x[1] < 2]
            if ok:
                acts += ['step', 'step']
            if not acts:
                continue
            a = rng.choice(acts)
            if a == 'run':
                plan.append(dict(a=a, g=g, o=rng.randrange(1, r + 1)))
            elif a == 'open':
                plan.append(dict(a=a, g=g, o=rng.randrange(r + 1, r + e + 1)))
                open_.append([g, 1])
            elif a == 'step':
                i = rng.choice(ok)
                open_[i][1] += 1
                plan.append(dict(a=a, g=i + 1, o=0))
            else:
                i = rng.randrange(len(open_))
                open_.pop(i)
                plan.append(dict(a=a, g=i + 1, o=0))
        if plan:
            yield {'k': k, 'plan': plan}


GENERATORS = {'Sessions': gen}
