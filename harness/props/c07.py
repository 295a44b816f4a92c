"""C07: full paths."""
from dfir_ntfs import MFT
import mft
import ntfs

ID = 'C07'
LOST = [60, 79, 62]


def runs(tier):
    return [dict(module='Paths', constants={'Scope': '"%s"' % tier}, workers=8, heap='8g')]


def split(path):
    out = [[ord(c) for c in x] for x in path.split('/')]
    if path.startswith('<Orphan>'):
        out[0] = LOST
    return out


def execute(inp):
    data = mft.build(inp['segs'])
    p = MFT.MasterFileTableParser(mft.open_file(data))
    res = []
    for r in p.file_records():
        if inp['only'] and mft.marks(r)[0] not in inp['only']:
            continue
        paths = p.build_full_paths(r, True)
        assert [x for x, _ in paths] == p.build_full_paths(r)
        out = []
        for path, attr in paths:
            fl = attr.get_flags()
            c = split(path)
            assert c[-1] == [ord(x) for x in attr.get_file_name()]
            out.append({'pref': fl in (0, 1, 3), 'path': c})
        if [x['pref'] for x in out] != sorted((x['pref'] for x in out), reverse=True):
            return {'st': 'preferred names are not first', 'r': out}
        res.append({'n': mft.marks(r)[0], 'p': out})
    return {'st': 'ok', 'r': res}


def canon(o):
    # the order of names of the same class is not part of the property
    return {'st': o['st'], 'r': sorted([x['n'], sorted((y['pref'], y['path']) for y in x['p'])] for x in o['r'])} if o.get('st') == 'ok' else o


def agree(m, inp, want, got):
    return canon(want) == canon(got)


def gen_segs(rng, n, alphabet='abAB', depth_bias=0.5):
    def seqref(k):
        t = segs[k]
        q = t['seq']
        if not t['use']:
            q = q - 1 if q >= 2 else 65535 if q == 0 else q
        return q
    segs = []
    for k in range(n):
        if k < 4:
            segs.append({'v': True, 'use': 1, 'dir': 0, 'seq': k or 1, 'bn': 0, 'bs': 0, 'names': []})
        elif k == 5:
            segs.append({'v': True, 'use': 1, 'dir': 1, 'seq': 5, 'bn': 0, 'bs': 0, 'names': [{'fl': 3, 'pn': 5, 'ps': 5, 'nm': [46]}]})
        else:
            use = rng.choice([0, 1, 1, 1])
            segs.append({'v': rng.random() < 0.93, 'use': use, 'dir': rng.choice([0, 1, 1]), 'seq': rng.choice([0 if not use else 1, 1, 2, 3, 65535]), 'bn': 0, 'bs': 0, 'names': []})
    free = [k for k in range(4, n) if k != 5]
    dirs = [k for k in free if segs[k]['dir']] or [5]
    for k in free:
        if rng.random() < 0.15:
            b = rng.choice(free)
            if b != k:
                segs[k]['bn'], segs[k]['bs'] = b, seqref(b) if rng.random() < 0.8 else rng.choice([1, 2, 7])
        for j in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.35:
                pn, ps = 5, 5
            elif r < 0.9:
                pn = rng.choice([d for d in dirs if d < k] or dirs) if rng.random() < 0.8 else rng.choice(dirs)
                ps = 5 if pn == 5 else seqref(pn)
            else:
                pn = rng.choice([rng.choice(free), n + 3, ntfs.FAR + rng.choice(dirs + [5])])
                ps = rng.choice([1, 2, 3])
            segs[k]['names'].append({'fl': rng.choice([0, 1, 2, 3]), 'pn': pn, 'ps': ps, 'nm': [ord(rng.choice(alphabet)) for _ in range(rng.randrange(1, 4))]})
    return segs


def history_segs(rng, n, names='ab', steps=None):
    """A table after a history of files made, linked, moved and removed, their records reused; what is in a removed directory stays."""
    segs = gen_segs(rng, 6)
    segs[4]['names'] = []
    segs[4].update(v=True, bn=0, bs=0)
    segs += [{'v': True, 'use': 0, 'dir': 0, 'seq': rng.choice([0, 1, 1, 1, 65535]), 'bn': 0, 'bs': 0, 'names': []} for _ in range(6, n)]

    def parent():
        d = [k for k in range(5, n) if segs[k]['use'] and segs[k]['dir'] and segs[k]['bn'] == 0]
        k = rng.choice(d + [5])
        return k, segs[k]['seq']

    def name(dirs):
        k, q = parent()
        return {'fl': rng.choice([0, 1, 1, 3]), 'pn': k, 'ps': q, 'nm': [ord(rng.choice(names if dirs or rng.random() < 0.4 else names[0]))]}
    for _ in range(steps or 3 * n):
        live = [k for k in range(6, n) if segs[k]['use']]
        dead = [k for k in range(6, n) if not segs[k]['use']]
        r = rng.random()
        if dead and (r < 0.6 or not live):
            k = rng.choice(dead[:2])
            t = segs[k]
            d = rng.random() < 0.6
            t.update(use=1, dir=int(d), seq=t['seq'] or 1, names=[name(d)])
        elif live and r < 0.8:
            k = rng.choice(live)
            segs[k].update(use=0, seq=(segs[k]['seq'] + 1) % 65536)
        elif live and r < 0.9:
            segs[rng.choice(live)]['names'] = [name(False)]
        elif live:
            segs[rng.choice(live)]['names'].append(name(False))
    return segs


def deep_segs(rng, n, name):
    segs = gen_segs(rng, 6)
    segs[4].update(v=True, use=1, dir=0, bn=0, bs=0, names=[])
    for k in range(6, n):
        segs.append({'v': True, 'use': 1, 'dir': 1, 'seq': 1, 'bn': 0, 'bs': 0, 'names': [{'fl': 1, 'pn': k - 1 if k > 6 else 5, 'ps': 1 if k > 6 else 5, 'nm': name(k)}]})
    return segs


def gen(rng, tier):
    for _ in range(100 if tier == 'quick' else 1500):
        yield {'only': [], 'segs': history_segs(rng, rng.choice([9, 12, 16]))}
    for i in range(250 if tier == 'quick' else 4000):
        n = rng.choice([8, 10, 14, 25])
        segs = gen_segs(rng, n, 'abcdefghXYZ. ~1\u0430\u2603')
        if i % 25 == 0:   # a deep chain, possibly closed into a loop at its top
            n = 60
            segs = gen_segs(rng, 6)
            for k in range(6, n):
                segs.append({'v': True, 'use': 1, 'dir': 1, 'seq': 1, 'bn': 0, 'bs': 0, 'names': [{'fl': 1, 'pn': k - 1 if k > 6 else rng.choice([5, n - 1]), 'ps': 1, 'nm': [65 + k % 26]}]})
            segs[6]['names'][0]['ps'] = 5 if segs[6]['names'][0]['pn'] == 5 else 1
        yield {'only': [], 'segs': segs}
    for n in [104, 140, 260, 300] if tier == 'quick' else [100, 128, 130, 140, 200, 256, 258, 300, 400, 520]:     # very deep ones
        yield {'segs': deep_segs(rng, n, lambda k: [97 + k % 26]), 'only': [n - 1, n - 2, n // 2, 6]}


GENERATORS = {'Paths': gen}
