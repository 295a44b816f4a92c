"""C08: lookup by path."""
from dfir_ntfs import MFT
import mft
from props.c07 import gen_segs, history_segs, deep_segs

ID = 'C08'


def runs(tier):
    return [dict(module='Lookup', constants={'Scope': '"%s"' % tier}, workers=8, heap='8g')]


def execute(inp):
    data = mft.build(inp['segs'])
    p = MFT.MasterFileTableParser(mft.open_file(data))
    out = []
    for q in inp['q']:
        path = ''.join(map(chr, q['p']))
        try:
            r = p.get_file_record_by_path(path, True) if q['cs'] else p.get_file_record_by_path(path)
        except MFT.MasterFileTableException:
            out.append({'s': 'err', 'ok': []})
        else:
            out.append({'s': 'none', 'ok': []} if r is None else {'s': 'some', 'ok': mft.marks(r)})
    return {'st': 'ok', 'r': out}


def agree(m, inp, want, got):
    if got.get('st') != 'ok' or len(want['r']) != len(got['r']):
        return False
    for w, g in zip(want['r'], got['r']):
        if w['s'] in ('none', 'err'):
            if g['s'] != w['s']:
                return False
        elif g['s'] != 'some' or g['ok'][0] not in w['ok']:
            return False
    return True


def gen(rng, tier):
    for n in (40, 72, 140) if tier == 'quick' else (40, 70, 140, 270, 300):     # very deep paths
        segs = deep_segs(rng, n, lambda k: [97 + k % 5])
        full = [chr(97 + k % 5) for k in range(6, n)]
        bad = list(full)
        bad[rng.randrange(n - 8)] = 'q'
        qs = ['/' + '/'.join(x) for x in (full, full[:-1], bad, full[:33], full[:17] + ['A'], full[1:], [c.upper() for c in full])]
        yield {'segs': segs, 'q': [{'p': [ord(c) for c in x], 'cs': i % 2 == 0} for i, x in enumerate(qs)] + [{'p': [ord(c) for c in qs[-1]], 'cs': False}]}
    # After a history, every path that can be put together by following parents, whether they are still the same ones or not.
    for _ in range(400 if tier == 'quick' else 8000):
        segs = history_segs(rng, rng.choice([9, 10, 12]), rng.choice(['ab', 'ab', 'aAb']), rng.choice([8, 15, 30, 60]))
        paths = set()
        for k in range(6, len(segs)):
            todo = [((), k)]
            for _ in range(4):
                nxt = []
                for tail, at in todo:
                    for nm in segs[at]['names'] if at < len(segs) else []:
                        t = (chr(nm['nm'][0]),) + tail
                        paths.add(t)
                        nxt.append((t, nm['pn']))
                todo = nxt
        paths = [x for x in sorted(paths) if len(x) > 1 or rng.random() < 0.3]
        rng.shuffle(paths)
        yield {'segs': segs, 'q': [{'p': [ord(c) for c in '/' + '/'.join(x)], 'cs': rng.random() < 0.5} for x in paths[:24]] + [{'p': [ord(c) for c in '/' + '/'.join(x) + '/'], 'cs': rng.random() < 0.5} for x in paths[:6]]}
    for _ in range(150 if tier == 'quick' else 3000):
        segs = gen_segs(rng, rng.choice([8, 12, 20]), rng.choice(['aA', 'abAB', '\u0430\u0410b', '\u00e9\u00c9x']))
        qs = []
        for _ in range(25):
            # paths that exist, with case changed, or put together at random
            comps = []
            k = rng.randrange(4, len(segs))
            for _ in range(rng.choice([1, 2, 3, 4])):
                if k >= len(segs) or not segs[k]['names']:
                    break
                nm = rng.choice(segs[k]['names'])
                comps.insert(0, nm['nm'])
                k = nm['pn']
                if k == 5 and rng.random() < 0.9:
                    break
            s = '/' + '/'.join(''.join(map(chr, c)) for c in comps)
            r = rng.random()
            if r < 0.2:
                s += '/'
            elif r < 0.35:
                s = s.swapcase()
            elif r < 0.4:
                s = rng.choice(['', '/', '//', '///', 'a/b', '/./a', '/../a', '/a//b', s.replace('/', '//'), '/b/./a', s[1:], '/a/..'[:3] + '/b/'])
            qs.append({'p': [ord(c) for c in s], 'cs': rng.random() < 0.5})
        yield {'segs': segs, 'q': qs}


GENERATORS = {'Lookup': gen}
