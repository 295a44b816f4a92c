"""C02: a file exposed over its runs."""
from dfir_ntfs import MFT
import lib

ID = 'C02'


def runs(tier):
    big = tier != 'quick'
    base = {'CS': '{2}', 'Offs': '{3}', 'Lcns': '{-1, 0, 2}', 'Lens': '{1, 2}', 'MaxRuns': '2', 'ReadArgs': '{-2, -1, 1, 3}', 'SeekArgs': '{-1, 3}', 'NOps': '2', 'VolClusters': '{3}'}
    two = {'CS': '{3}', 'Offs': '{0}', 'Lcns': '{-1, 1}', 'Lens': '{2}', 'MaxRuns': '2', 'ReadArgs': '{0, 2, 4, 9}', 'SeekArgs': '{1, 5, -2}', 'NOps': '2', 'VolClusters': '{2, 9}'}
    r = [dict(module='FragFile', constants=base), dict(module='FragFile', cases=False, constants=two)]
    if big:
        r.append(dict(module='FragFile', cases=False, workers=8, constants=dict(base, CS='{2, 3}', NOps='2', Lcns='{-1, 0, 1, 3}', ReadArgs='{-1, 0, 1, 2, 5}', SeekArgs='{-3, -1, 0, 2, 4}')))
        r.append(dict(module='FragFile', cases=False, workers=8, constants=dict(base, Lcns='{-1, 1}', MaxRuns='2', NOps='3', ReadArgs='{-1, 1, 3}', SeekArgs='{-1, 3}')))
    return r


def vol_bytes(n):
    return bytes((((j * 31) + (j // 250)) % 255) + 1 for j in range(n))


class FarVolume(lib.ReadOnlyFile):
    """The bytes from `at` on lie `gap` bytes further; nothing but 0xEE in between."""

    def __init__(self, data, at, gap):
        lib.ReadOnlyFile.__init__(self, data)
        self.at, self.gap = at, gap

    def seek(self, offset, whence=0):
        if whence == 2:
            offset, whence = len(self._d) + self.gap + offset, 0
        return lib.ReadOnlyFile.seek(self, offset, whence)

    def read(self, size=-1):
        p, d = self._p, self._d
        if p >= self.at + self.gap:
            b = d[p - self.gap:] if size is None or size < 0 else d[p - self.gap:p - self.gap + size]
        elif p < self.at:
            b = d[p:self.at] if size is None or size < 0 else d[p:min(p + size, self.at)]
            b += b'\xEE' * (max(0, size or 0) - len(b))
        else:
            b = b'\xEE' * (size or 0)
        self._p += len(b)
        return b


def zoomed(inp):
    """Every byte of the model stands for z bytes of the volume: reads of many megabytes."""
    z, cs = inp['zoom'], inp['cs']
    vol = lib.ReadOnlyFile(b''.join(bytes([b]) * z for b in vol_bytes(inp['voff'] + inp['vol'] * cs + cs // 2)))
    f = MFT.FragmentedFile(vol, inp['voff'] * z, cs * z, [(None if r['lcn'] == -1 else r['lcn'], r['n']) for r in inp['runs']], inp['size'] * z)
    out = []

    def pos(p):
        return p // z if p % z == 0 else ['between', p]
    for op in inp['ops']:
        if op['o'] == 'seek':
            out.append({'t': 'pos', 'p': pos(f.seek(op['a'] * z, op['w'])), 'd': []})
            continue
        try:
            d = f.read(op['a'] * z if op['a'] > 0 else op['a'])
        except MFT.MasterFileTableException:
            out.append({'t': 'err', 'p': 0, 'd': []})
            break
        q = [d[i] if d[i:i + z] == bytes([d[i]]) * z else ['mixed', i] for i in range(0, len(d), z)]
        out.append({'t': 'data', 'p': pos(f.tell()), 'd': q})
    return out


def execute(inp):
    if 'zoom' in inp:
        return zoomed(inp)
    cs = inp['cs']
    far, gap = inp['far'], inp['gap']
    vb = vol_bytes(inp['voff'] + inp['vol'] * cs + cs // 2)
    vol = FarVolume(vb, inp['voff'] + far['lcn'] * cs, cs << far['exp']) if far['exp'] else lib.ReadOnlyFile(vb)
    runs, start, end, shift = [], 0, 0, 0
    for k, r in enumerate(inp['runs'], 1):
        lcn, n = r['lcn'], r['n']
        if far['exp'] and lcn >= far['lcn']:
            lcn += 1 << far['exp']
        if k == gap['run']:
            end, shift = (start + n) * cs, cs << gap['exp']
            n += 1 << gap['exp']
        start += r['n']
        runs.append((None if lcn == -1 else lcn, n))

    def real(p):
        return p + shift if p >= end else p

    def model(p):
        return p - shift if p >= end + shift else p
    f = MFT.FragmentedFile(vol, inp['voff'], cs, runs, real(inp['size']))
    out = []
    for op in inp['ops']:
        if op['o'] == 'tell':
            out.append({'t': 'pos', 'p': model(f.tell()), 'd': []})
        elif op['o'] == 'seek':
            a = op['a']
            if shift:
                a = real(a) if op['w'] == 0 else real(model(f.tell()) + a) - f.tell() if op['w'] == 1 else real(inp['size'] + a) - real(inp['size'])
            try:
                p = f.seek(a, op['w']) if op['w'] or op['a'] % 2 else f.seek(a)
            except ValueError:
                out.append({'t': 'bad', 'p': model(f.tell()), 'd': []})
            else:
                out.append({'t': 'pos', 'p': model(p), 'd': []})
        else:
            try:
                d = f.read() if op['a'] == -2 else f.read(op['a'])
            except MFT.MasterFileTableException:
                out.append({'t': 'err', 'p': 0, 'd': []})
                break
            out.append({'t': 'data', 'p': model(f.tell()), 'd': list(d)})
    return out


NEAR, NOGAP = {'lcn': 0, 'exp': 0}, {'run': 0, 'exp': 0}


def split(rng, rl, volc):
    """A place where the volume can be pulled apart: not inside of a run."""
    at = [c for c in range(1, volc + 1) if not any(r['lcn'] < c < r['lcn'] + r['n'] for r in rl if r['lcn'] >= 0)]
    return {'lcn': rng.choice(at), 'exp': rng.choice([24, 28, 30, 31, 32, 33, 40])} if at else NEAR


def gapped(rng, x):
    """The same file with one hole made very long; no read crosses it."""
    holes = [k for k, r in enumerate(x['runs'], 1) if r['lcn'] == -1]
    if not holes:
        return x
    k = rng.choice(holes)
    cs = x['cs']
    end = sum(r['n'] for r in x['runs'][:k]) * cs
    size = max(x['size'], end)
    pos, ops = 0, []
    for op in x['ops']:
        if op['o'] == 'seek' and op['w'] < 3:
            new = [op['a'], pos + op['a'], size + op['a']][op['w']]
            if new >= 0:
                pos = new
        elif op['o'] == 'read':
            last = size if op['a'] < 0 else min(size, pos + op['a'])
            if pos < end <= last:
                continue
            pos = max(pos, last)
        ops.append(op)
    ops = [{'o': 'seek', 'a': end + rng.randrange(0, cs + 1), 'w': 0}, {'o': 'read', 'a': rng.choice([1, cs, 3 * cs]), 'w': 0}, {'o': 'seek', 'a': 0, 'w': 0}] + ops
    return dict(x, size=size, ops=ops, gap={'run': k, 'exp': rng.choice([20, 29, 31, 32, 33, 44])})


def gen(rng, tier):
    n = 1200 if tier == 'quick' else 12000
    for _ in range(n):
        cs = rng.choice([1, 2, 4, 8, 16, 64])
        volc = rng.randrange(1, 40)
        rl = []
        for _ in range(rng.randrange(0, 7)):
            ln = rng.choice([1, 1, 2, 3, 5])
            hole = rng.random() < 0.25
            lim = max(1, volc - ln + 1) if rng.random() < 0.95 else volc + 3
            rl.append({'lcn': -1 if hole else rng.randrange(0, lim), 'n': ln})
        tot = sum(r['n'] for r in rl) * cs
        size = max(0, tot - rng.choice([0, 0, 1, cs // 2, cs, cs - 1, rng.randrange(0, tot + 1)])) + (rng.choice([0] * 12 + [1, cs]) )
        ops = []
        for _ in range(rng.randrange(1, 9)):
            r = rng.random()
            if r < 0.55:
                ops.append({'o': 'read', 'a': rng.choice([-2, -1, 0, 1, cs - 1, cs, cs + 1, 2 * cs, 3 * cs + 1, rng.randrange(0, tot + 5)]), 'w': 0})
            elif r < 0.9:
                w = rng.choice([0, 0, 1, 2, 3])
                a = rng.randrange(0, size + 3) if w == 0 else rng.randrange(-size - 2, 4) if w == 2 else rng.randrange(-cs - 2, cs + 3)
                ops.append({'o': 'seek', 'a': a, 'w': w})
            else:
                ops.append({'o': 'tell', 'a': 0, 'w': 0})
        x = {'cs': cs, 'voff': rng.choice([0, 3, 512]), 'runs': rl, 'size': size, 'vol': volc, 'ops': ops, 'far': NEAR, 'gap': NOGAP}
        if rng.random() < 0.25:
            x['far'] = split(rng, rl, volc)
        if rng.random() < 0.25:
            x = gapped(rng, x)
        yield x
    for _ in range(5 if tier == 'quick' else 40):     # large clusters, reads of tens of megabytes
        z, cs = rng.choice([(1 << 20, 1), (1 << 20, 2), (1 << 19, 4), (65536, 1), (1 << 18, 8)])
        volc = rng.choice([20, 40, 60]) // cs
        rl = [{'lcn': rng.choice([-1, rng.randrange(max(1, volc - 8)), rng.randrange(max(1, volc - 8))]), 'n': rng.randrange(1, 8)} for _ in range(rng.choice([2, 6, 12]))]
        size = sum(r['n'] for r in rl) * cs - rng.choice([0, cs - 1])
        p = rng.randrange(size)
        yield {'cs': cs, 'voff': 1, 'runs': rl, 'size': size, 'vol': volc, 'far': NEAR, 'gap': NOGAP, 'zoom': z,
               'ops': [{'o': 'read', 'a': -1, 'w': 0}, {'o': 'seek', 'a': p, 'w': 0}, {'o': 'read', 'a': size - p, 'w': 0}, {'o': 'seek', 'a': p // 2, 'w': 0}, {'o': 'read', 'a': rng.randrange(1, size + 1), 'w': 0}]}
    for _ in range(20 if tier == 'quick' else 200):     # heavily fragmented
        k = rng.choice([64, 65, 100, 128, 129, 200, 256, 257, 300])
        cs = rng.choice([1, 2, 4])
        rl = [{'lcn': -1 if rng.random() < 0.1 else rng.randrange(0, 400), 'n': 1 if rng.random() < 0.9 else 2} for _ in range(k)]
        tot = sum(r['n'] for r in rl) * cs
        yield {'cs': cs, 'voff': 512, 'runs': rl, 'size': tot, 'vol': 410, 'far': NEAR, 'gap': NOGAP,
               'ops': [{'o': 'read', 'a': -1, 'w': 0}, {'o': 'seek', 'a': tot - 9, 'w': 0}, {'o': 'read', 'a': 5, 'w': 0}, {'o': 'seek', 'a': tot // 2, 'w': 0}, {'o': 'read', 'a': 40, 'w': 0}]}


GENERATORS = {'FragFile': gen}
