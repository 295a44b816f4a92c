"""C38: codes and flags, shown by name."""
import random
import struct
from dfir_ntfs import Attributes, LogFile, MFT, USN
from dfir_ntfs.addons import FAT, exFAT
import ntfs
from lib import ReadOnlyFile

ID = 'C38'


def runs(tier):
    return [dict(module='Names', constants={'Scope': '"%s"' % tier}, workers=4)]


def split(text):
    return text.split(' | ') if text else []


def flags(inp):
    v = sum(1 << b for b in inp['b'])
    k = inp['k']
    f = {'ntfs': Attributes.ResolveFileAttributes, 'fat': FAT.ResolveFileAttributes, 'exfat': exFAT.ResolveFileAttributes, 'reason': USN.ResolveReasonCodes, 'source': USN.ResolveSourceCodes}[k]
    names = split(f(v))
    rest = 0
    if k in ('reason', 'source') and names and names[-1].startswith('0x'):
        rest = int(names.pop(), 16)
    elif k not in ('reason', 'source'):
        rest = None
    return {'shown': names, 'rest': rest, 'class': '', 'where': ''}


def op(inp):
    c = inp['b'][0]
    n = LogFile.ResolveNTFSOperation(c)
    where = set()
    for redo, undo in ((c, 0), (0, c), (c, c), (c, 1), (27, c)):
        x = LogFile.NTFSLogRecord(struct.pack('<12Hq', redo, undo, 0, 0, 0, 0, 24, 0, 16, 8, 2, 2, 3), 5, 6, 4096)
        x.oat = {24: (77, 'x')}
        num, off, ref = x.calculate_mft_target_number(), x.calculate_offset_in_target(), x.calculate_mft_target_reference_and_name()
        if num is not None:
            ok = num == (3 * 4096 + 1024) // 1024 and off == 24 and ref is None
            where.add('record' if ok else 'wrong: %r' % ((num, off, ref),))
        elif ref is not None:
            ok = ref == (77, 'x') and off == 3 * 4096 + 1024 + 24
            where.add('outside' if ok else 'wrong: %r' % ((num, off, ref),))
        else:
            where.add('' if off is None else 'wrong: offset')
        s = str(x)
        if 'redo operation: %s ' % LogFile.ResolveNTFSOperation(redo) not in s or 'undo operation: %s ' % LogFile.ResolveNTFSOperation(undo) not in s:
            where.add('text: ' + s)
    if n.startswith('0x'):
        return {'shown': [], 'rest': [int(n, 16) & 0xFFFF, int(n, 16) >> 16], 'class': '', 'where': '/'.join(sorted(where))}
    return {'shown': [n], 'rest': [], 'class': '', 'where': '/'.join(sorted(where))}


def typ(inp):
    c = inp['b'][0] | inp['b'][1] << 16
    rng = random.Random(c)
    value = rng.randbytes(100)
    r = MFT.AttributeRecordResident(c, rng.choice([None, 'n']), value)
    n = MFT.AttributeRecordNonresident(c, rng.choice([None, 'n']), b'\x11\x02\x05\x00', 0, 1, 900)
    texts = {MFT.ResolveAttributeType(c), r.type_str(), n.type_str()}
    if len(texts) != 1:
        return {'shown': sorted(texts)}
    t, = texts
    cls = None
    if c != 0xA0:
        d = r.value_decoded()
        cls = type(d).__name__
        if bytes(d.value) != value:
            cls += ' of another value'
    # Outside of the record: only lists and indexes are read.
    vol = ReadOnlyFile(rng.randbytes(512 * 9))
    try:
        d = n.value_decoded(vol, 512, 512)
        got = type(d).__name__
        data = d.value if got == 'AttributeList' else d.fragmented_file
        if got != 'AttributeList':
            data.seek(0)
            data = data.read(2000)
        if bytes(data) != vol._d[512 * 6:512 * 6 + 900]:
            return {'shown': ['other content']}
        if cls is None:
            cls = got
        if got != cls:
            return {'shown': [got, cls]}
    except NotImplementedError:
        if c in (0x20, 0xA0):
            return {'shown': ['not read']}
    if t.startswith('0x'):
        return {'shown': [], 'rest': [int(t, 16) & 0xFFFF, int(t, 16) >> 16], 'class': cls, 'where': ''}
    return {'shown': [t], 'rest': [], 'class': cls, 'where': ''}


def execute(inp):
    return {'op': op, 'type': typ}.get(inp['k'], flags)(inp)


def agree(m, inp, want, got):
    if inp['k'] in ('op', 'type'):
        return want == got
    w = sum(1 << b for b in want['rest'])
    return want['shown'] == got['shown'] and got['rest'] in (None, w)


def gen(rng, tier):
    for _ in range(500 if tier == 'quick' else 20000):
        k = rng.choice(['ntfs', 'fat', 'exfat', 'reason', 'source', 'op', 'type'])
        if k == 'op':
            yield {'k': k, 'b': [rng.randrange(65536), 0]}
        elif k == 'type':
            yield {'k': k, 'b': [rng.choice([rng.randrange(65536), 16 * rng.randrange(20)]), rng.choice([0, 0, rng.randrange(65536)])]}
        else:
            w = {'fat': 8, 'exfat': 16}.get(k, 32)
            p = rng.choice([0.1, 0.5, 0.9])
            yield {'k': k, 'b': [i for i in range(w) if rng.random() < p]}


GENERATORS = {'Names': gen}
