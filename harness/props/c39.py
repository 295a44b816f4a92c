"""C39: vsc_mount, served to a kernel that is played here (a stand-in for llfuse; nothing is mounted)."""
import contextlib
import errno
import io
import os
import random
import re
import runpy
import shutil
import stat
import sys
import tempfile
import types
import lib
import vss
from vss import BS

ID = 'C39'


def q(x):
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, dict):
        return '[%s]' % ', '.join('%s |-> %s' % (k, q(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return '<<%s>>' % ', '.join(map(q, x))
    return '"%s"' % x if isinstance(x, str) else str(x)


def sset(xs):
    return '{%s}' % ', '.join(map(q, xs))


SNAP = {'o': 'snap', 'b': 0}


def w(b):
    return {'o': 'write', 'b': b}


def setup(where, size, u, nul, pos0, ops):
    return {'where': where, 'size': size, 'u': u, 'nul': nul, 'pos0': pos0, 'ops': ops}


def cmd(mode, at=1, kind='on', wrong=''):
    return {'mode': mode, 'at': at, 'kind': kind, 'wrong': wrong}


def call(c, i='', f=False, n=False, a=0, b=0):
    return {'c': c, 'i': i, 'f': f, 'n': n, 'a': a, 'b': b}


CHANGING = ['create', 'link', 'mkdir', 'mknod', 'rename', 'rmdir', 'setattr', 'symlink', 'unlink', 'write']
MODES = ['mount', 'alt', 'two']
WRONG = ['', 'words', 'number', 'mode', 'dir', 'image']


def runs(tier):
    size = 10 * BS + 1536
    setups = [setup([3, 1, 10], size, [], False, 1, [w(1), SNAP, w(1), SNAP, w(2), w(1)]), setup([2, 3, 5], size, [3], True, 4, [SNAP, w(2), SNAP]),
              setup([9, 10], size, [1], False, 1, [SNAP])]
    meta = [call('lookup', 'root', n=True), call('lookup', 'root'), call('lookup', 'image', n=True), call('lookup', 'none', n=True)]
    meta += [call(c, i) for c in ('getattr', 'opendir') for i in ('root', 'image', 'none')]
    meta += [call('open', i, f) for i in ('root', 'image', 'none') for f in (False, True)]
    meta += [call('readdir', i, a=a) for i in ('dir', 'file', 'none') for a in (0, 1, 2)]
    meta += [call(c, i) for c in CHANGING for i in ('root', 'image')]
    meta += [call('release', 'file'), call('releasedir', 'dir')]
    reads = [call('read', 'file', a=a, b=b) for a, b in [(0, 100), (0, 1 << 20), (BS - 10, 20), (3 * BS, BS), (3 * BS + 1, 2 * BS), (size - 700, 512), (size - 512, 513), (size, 1), (size + 9, 5), (BS, 0), (10 * BS, 4096)]]
    bad = [call('read', i, a=0, b=10) for i in ('dir', 'none')]

    def job(cs, n, ms, **kw):
        return dict(module='VscMount', constants={'Scope': '"%s"' % tier, 'Setups': sset(setups), 'Commands': sset(ms), 'Calls': sset(cs), 'MaxCalls': str(n)}, workers=4, heap='6g', **kw)
    return [job(reads + [call('readdir', 'dir'), call('open', 'image'), call('write', 'image')] + bad, 2 if tier == 'quick' else 3, [cmd(m, a) for m in MODES for a in (1, 2)]),
            job(meta + bad, 1 if tier == 'quick' else 2, [cmd(m) for m in MODES], cases=False),
            job([], 0, [cmd(m, a, k, x) for m in MODES + ['list'] for a in (0, 1, 2, 3) for k in ('on', 'off', 'other') for x in WRONG], cases=False)]


class Kernel(object):
    """Plays llfuse: takes the file system, asks what it is told to ask, and leaves."""

    def __init__(self, calls, rng):
        self.calls, self.rng, self.ops, self.answers, self.log = calls, rng, None, [], []
        k = self
        m = types.ModuleType('llfuse')

        class FUSEError(Exception):
            def __init__(self, number):
                Exception.__init__(self, number)
                self.errno = number

        class Operations(object):
            def init(self):
                pass

            def destroy(self):
                pass

        class Attributes(object):
            pass

        def init(ops, mount_point, options=()):
            k.ops = ops
            k.log.append('init')

        def main(workers=None, **kw):
            k.ops.init()
            k.log.append('main')
            for c in calls:
                try:
                    k.answers.append(k.ask(c))
                except FUSEError as e:
                    k.answers.append({'e': errno.errorcode.get(e.errno, str(e.errno))})

        def close(unmount=True):
            k.log.append('close')
            k.ops.destroy()
        m.ROOT_INODE, m.Operations, m.EntryAttributes, m.StatvfsData, m.FUSEError = 1, Operations, Attributes, Attributes, FUSEError
        m.RequestContext, m.SetattrFields = Attributes, Attributes
        m.default_options, m.init, m.main, m.close = {'big_writes', 'nonempty', 'default_permissions'}, init, main, close
        self.module, self.inodes, self.handles, self.name = m, {'root': 1}, {}, None

    def learn(self):
        """What a kernel knows from the first calls: the inode of the file, its name, the handles."""
        ops, ctx = self.ops, None
        h = ops.opendir(1, ctx)
        rows = list(ops.readdir(h, 0))
        self.name = rows[0][0] if rows else b'image.raw'
        self.inodes['image'] = ops.lookup(1, self.name, ctx).st_ino
        self.handles = {'dir': h, 'file': ops.open(self.inodes['image'], os.O_RDONLY, ctx)}

    def inode(self, i):
        return self.inodes[i] if i in self.inodes else self.rng.choice([0, 77, 1 << 40])

    def handle(self, h):
        return self.handles[h] if h in self.handles else self.rng.choice([0, 99, 1 << 33])

    def stat(self, a):
        i = [x for x in self.inodes if self.inodes[x] == a.st_ino]
        kind = 'dir' if stat.S_ISDIR(a.st_mode) else 'file' if stat.S_ISREG(a.st_mode) else 'other'
        if a.st_blocks * 512 < a.st_size:
            kind = 'too few blocks'
        return {'e': 'ok', 'i': i[0] if i else 'other', 'k': kind, 'size': a.st_size}

    def ask(self, c):
        if self.name is None:
            self.learn()
        ops, rng, ctx, what = self.ops, self.rng, None, c['c']
        if what == 'lookup':
            n = self.name
            return self.stat(ops.lookup(self.inode(c['i']), n if c['n'] else rng.choice([b'other', n + b'x', n[:-1], n.upper(), b'.x', b'']), ctx))
        if what == 'getattr':
            return self.stat(ops.getattr(self.inode(c['i']), ctx))
        if what == 'open':
            flags = rng.choice([os.O_WRONLY, os.O_RDWR, os.O_APPEND, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_TRUNC]) if c['f'] else rng.choice([0, 0, os.O_CLOEXEC, os.O_NOATIME, 0x8000])
            return {'e': 'ok', 'h': self.kind(ops.open(self.inode(c['i']), flags, ctx))}
        if what == 'opendir':
            return {'e': 'ok', 'h': self.kind(ops.opendir(self.inode(c['i']), ctx))}
        if what == 'readdir':
            rows = list(ops.readdir(self.handle(c['i']), c['a']))
            if any(n != self.name or o < 1 for n, a, o in rows):
                return {'e': 'other rows'}
            return {'e': 'ok', 'l': [self.stat(a) for n, a, o in rows]}
        if what == 'read':
            return self.data(c['a'], ops.read(self.handle(c['i']), c['a'], c['b']))
        if what in ('release', 'releasedir'):
            getattr(ops, what)(self.handle(c['i']))
            return {'e': 'ok'}
        i, n = self.inode(c['i']), self.name
        args = {'create': (1, b'new', 0o644, os.O_RDWR, ctx), 'link': (i, 1, b'new', ctx), 'mkdir': (1, b'new', 0o755, ctx), 'mknod': (1, b'new', 0o644, 0, ctx), 'rename': (1, n, 1, b'new', ctx),
                'rmdir': (1, n, ctx), 'setattr': (i, None, None, None, ctx), 'symlink': (1, b'new', b'target', ctx), 'unlink': (1, n, ctx), 'write': (self.handle('file'), 0, b'data')}[what]
        r = getattr(ops, what)(*args)
        return {'e': 'ok', 'r': str(r)}

    def kind(self, h):
        return ([x for x in self.handles if self.handles[x] == h] + ['other'])[0]

    def data(self, off, d):
        """The length and, for each block, the values it agrees with."""
        out, at = [], off
        while at < off + len(d):
            i, o = divmod(at, BS)
            piece = d[at - off:at - off + BS - o]
            out.append([i, [v for v, b in self.candidates(i) if b[o:o + len(piece)] == piece]])
            at += len(piece)
        return {'e': 'ok', 'n': len(d), 'd': out}


def execute(inp):
    rng = random.Random(repr(inp))
    c = inp['cmd']
    two = c['mode'] == 'two'
    salt = rng.randrange(1000)
    base, sbase = rng.choice([0, 0, 512, 3 * 512]), rng.choice([0, 512, 5 * 512])
    n = len(inp['where'])
    ops = [{'o': 'snap', 'u': inp['u'], 'nul': inp['nul']} if o['o'] == 'snap' else o for o in inp['ops']]
    snaps = sum(o['o'] == 'snap' for o in ops)
    stamps = [131000000000000000 + (rng.randrange(1000) * 100 + i) * 36000000000 for i in range(snaps)]
    pb, sb, guids, stores = vss.write(ops, n, inp['where'], inp['size'], salt, 0xFFFF, two, 508, rng, stamps, inp['pos0'])
    if c['kind'] == 'off':
        pb[0] = pb[0][:7680] + bytes(BS - 7680)
    elif c['kind'] == 'other':
        pb[0] = pb[0][:3] + b'MSDOS5.0' + pb[0][11:]
    f = vss.SparseFile(pb, max([inp['size']] + [(b + 1) * BS for b in pb]), 0)
    images = {'image': rng.randbytes(base) + f.read()}
    if two:
        images['storage'] = rng.randbytes(sbase) + vss.SparseFile(sb, (max(sb) + 1) * BS, 0, salt=9).read()
    d = tempfile.mkdtemp(prefix='vsc_')
    try:
        for k, v in images.items():
            with open(os.path.join(d, k), 'wb') as g:
                g.write(v)
        os.mkdir(os.path.join(d, 'mnt'))
        pos = inp['pos0'] + c['at'] - 1
        at = lambda x: os.path.join(d, x)
        image, mnt = at('image'), at('mnt')
        if c['wrong'] == 'image':
            image = at('absent')
        if c['wrong'] == 'dir':
            mnt = rng.choice([at('nothing'), at('image')])
        nums = [str(base)] + ([str(sbase)] if two else []) + ([str(pos)] if c['mode'] != 'list' else [])
        if c['wrong'] == 'number':
            nums[rng.randrange(len(nums))] = rng.choice(['x', '', '0x10', '1.5'])
        mode = {'mount': '--mount', 'alt': '--mount-altfill', 'two': '--mount-two', 'list': '--list'}[c['mode']]
        if c['wrong'] == 'mode':
            mode = rng.choice(['--moun', 'mount', '-l', '--help', ''])
        argv = ['vsc_mount', mode, image] + ([at('storage')] if two else []) + nums + ([mnt] if c['mode'] != 'list' else [])
        if c['wrong'] == 'words':
            argv = argv[:-1] if rng.random() < 0.5 else argv + ['more']
        kernel = Kernel(inp['calls'], rng)
        values = [0] + [1000 + b for b in range(1, n + 1)] + list(range(1, len(ops) + 1))
        known = {v: b''.join(vss.cell(v, salt)) for v in values}
        marks = {-2: b'EMPTY           ' * 1024, -3: b'ORIGINAL        ' * 1024}
        kernel.candidates = lambda i: [(-1, f.block(i))] + list(known.items()) + list(marks.items())
        old, module, code = sys.argv, sys.modules.get('llfuse'), 0
        sys.argv, sys.modules['llfuse'] = argv, kernel.module
        text, err = io.StringIO(), io.StringIO()
        problem = None
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(err):
                runpy.run_path(os.path.join(lib.REPO, 'vsc_mount'), run_name='__main__')
        except SystemExit as e:
            code = e.code or 0
        except Exception as e:
            if 'init' in kernel.log:
                raise
            code, problem = 1, e
        finally:
            sys.argv = old
            del sys.modules['llfuse']
            if module:
                sys.modules['llfuse'] = module
        for k, v in images.items():
            with open(at(k), 'rb') as g:
                if g.read() != v:
                    return {'st': 'the image was changed'}
        if sorted(os.listdir(d)) != sorted(list(images) + ['mnt']) or os.listdir(at('mnt')):
            return {'st': 'something was left behind'}
        out, rows, left = 'nothing', [], 0
        if 'init' in kernel.log:
            out = 'served' if kernel.log == ['init', 'main', 'close'] and code == 0 else 'otherwise'
            left = sum(1 for x in os.listdir('/proc/self/fd') if os.path.realpath('/proc/self/fd/' + x).startswith(d))
        elif code != 0:
            out = 'refused'
        elif 'Usage:' in text.getvalue():
            out = 'usage'
        elif 'Shadow copies are disabled' in text.getvalue():
            out = 'disabled'
        elif 'Not a valid volume' in text.getvalue():
            out = 'not a volume'
        elif 'Shadow copies are enabled' in text.getvalue():
            out = 'listed'
            import datetime
            for line in text.getvalue().splitlines():
                m = re.search(r'position: (\d+), timestamp \(UTC\): (.*)$', line)
                if m:
                    i = int(m.group(1)) - inp['pos0']
                    t = str(datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=stamps[i] // 10)) if 0 <= i < snaps else None
                    rows.append(int(m.group(1)) if t == m.group(2).strip() else -1)
        return {'out': {'st': out, 'rows': sorted(rows)}, 'ans': kernel.answers, 'left': left}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def agree(m, inp, want, got):
    if 'ans' not in got or got['out'] != want['out'] or got['left'] != want['left'] or len(want['ans']) != len(got['ans']):
        return False
    for a, b in zip(want['ans'], got['ans']):
        if 'd' in a:
            if a['n'] != b.get('n') or len(a['d']) != len(b['d']) or any(x[0] != y[0] or x[1] not in y[1] for x, y in zip(a['d'], b['d'])):
                return False
        elif a != b:
            return False
    return True


def gen(rng, tier):
    for _ in range(600 if tier == 'quick' else 8000):
        blocks = rng.choice([6, 12, 30])
        size = blocks * BS + rng.choice([0, 512, 1536, BS - 512])
        n = rng.choice([1, 2, 4, 5])
        where = rng.sample(range(1, -(-size // BS)), n)
        u = [b for b in range(1, n + 1) if rng.random() < 0.25]
        ops = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            b = rng.randrange(1, n + 1)
            if rng.random() < 0.3 and sum(o['o'] == 'snap' for o in ops) < 5:
                ops.append(SNAP)
            elif b not in u:
                ops.append(w(b))
        if SNAP not in ops and rng.random() < 0.8:
            ops.insert(rng.randrange(len(ops) + 1), SNAP)
        k = sum(o['o'] == 'snap' for o in ops)
        calls = []
        for _ in range(rng.choice([0, 1, 4, 10, 25])):
            x = rng.random()
            if x < 0.65:
                b = rng.choice([1, 511, 512, 4096, BS, BS + 1, 131072, rng.randrange(3 * BS)])
                a = rng.choice([0, rng.choice(where) * BS, rng.choice(where) * BS - rng.randrange(600), rng.randrange(size), size - rng.randrange(700), size + rng.choice([0, 1, BS])])
                if calls and rng.random() < 0.3 and calls[-1]['c'] == 'read':   # as reading on does
                    a = calls[-1]['a'] + calls[-1]['b']
                calls.append(call('read', rng.choice(['file'] * 9 + ['dir', 'none']), a=a, b=b))
            elif x < 0.75:
                calls.append(call('readdir', rng.choice(['dir', 'dir', 'file', 'none']), a=rng.choice([0, 0, 1])))
            elif x < 0.9:
                c = rng.choice(['lookup', 'getattr', 'open', 'opendir', 'release', 'releasedir'])
                calls.append(call(c, rng.choice({'release': ['file'], 'releasedir': ['dir']}.get(c, ['root', 'image', 'none'])), f=rng.random() < 0.3, n=rng.random() < 0.7))
            else:
                calls.append(call(rng.choice(CHANGING), rng.choice(['root', 'image'])))
        c = cmd(rng.choice(MODES * 2 + ['list']), rng.choice(list(range(1, k + 1)) * 9 + [0, k + 1]), rng.choice(['on'] * 20 + ['off', 'other']), rng.choice([''] * 20 + WRONG))
        inp = setup(where, size, u, rng.random() < 0.6, rng.choice([1, 1, 3, 64]), ops)
        inp.update(cmd=c, calls=calls)
        yield inp


GENERATORS = {'VscMount': gen}
