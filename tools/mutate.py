#!/usr/bin/env python3
"""Small changes to the code, in bulk: which of them do the checks notice?

  mutate.py prepare C13 C14 ...             record what the checks of these properties require (quick tier)
  mutate.py run FILE C13 C14 ... [--lines A-B] [--every N] [--jobs N] [--log F]
                                            change FILE at one place at a time (in scratch copies) and list the changes that none of the properties notices
"""
import ast, importlib, json, os, pickle, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/mut'


def prepare(ids):
    os.makedirs(D, exist_ok=True)
    for pid in ids:
        p = os.path.join(D, pid + '.pkl')
        if os.path.exists(p):
            os.unlink(p)
        r = subprocess.run([sys.executable, os.path.join(V, 'run.py'), pid], env=dict(os.environ, VERIF_DUMP=p), cwd=V, stdout=subprocess.PIPE, text=True)
        print(r.stdout.strip()[-300:])


def one(pid, limit):
    """In a process of its own: does the check of this property notice? (the tree is given by VERIF_REPO)"""
    sys.path[:0] = [os.path.join(V, 'harness'), os.path.join(V, 'harness', 'props')]
    import lib
    lib._limit = 8
    try:
        lib._init_worker(pid.lower())
    except Exception as e:
        print('KILLED import %r' % e)
        return
    prop = lib._prop
    cmp = getattr(prop, 'agree', None)
    cases = []
    with open(os.path.join(D, pid + '.pkl'), 'rb') as f:
        while True:
            try:
                m, xs = pickle.load(f)
            except EOFError:
                break
            cases += [(m, i, w) for i, w in xs]
    random.Random(1).shuffle(cases)
    end = time.time() + limit
    for n, (m, i, w) in enumerate(cases):
        got = lib.norm(lib._exec(dict(i, _m=m)))
        ok = cmp(m, i, w, got) if cmp else w == got
        if not ok:
            print('KILLED by %s after %d' % (pid, n))
            return
        if time.time() > end:
            print('ALIVE (time is up after %d of %d)' % (n, len(cases)))
            return
    print('ALIVE')


SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


def mutants(src, lo, hi):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def pos(l, c):
        return starts[l - 1] + c
    out = []

    def put(node, a, b, text, what):
        if lo <= node.lineno <= hi:
            out.append((node.lineno, a, b, text, what))

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    docs = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        if isinstance(n, ast.FunctionDef) and n.name in ('print_information', '__str__', '__repr__'):
            for k in ast.walk(n):
                skip.add(k)
        if isinstance(n, ast.Raise):
            for k in ast.walk(n):
                if k is not n:
                    skip.add(k)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            t = SWAP.get(type(n.ops[0]))
            if t:
                seg = raw[a:b].decode()
                pre = seg[:len(seg) - len(seg.lstrip(' )'))]
                post = seg[len(seg.rstrip(' (')):]
                put(n, a, b, pre + t + post, 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            seg = raw[a:b].decode()
            pre = seg[:len(seg) - len(seg.lstrip(' )'))]
            post = seg[len(seg.rstrip(' (')):]
            put(n, a, b, pre + BIN[type(n.op)] + post, 'arith')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            seg = raw[a:b].decode()
            if len(n.values) == 2:
                put(n, a, b, seg.replace(' and ', ' \0 ').replace(' or ', ' and ').replace('\0', 'or'), 'bool')
            for k in n.values:   # one condition left out
                x, y = span(k)
                put(n, x, y, 'True' if isinstance(n.op, ast.And) else 'False', 'drop condition')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            put(n, a, b, raw[span(n.operand)[0]:span(n.operand)[1]].decode(), 'not')
        elif isinstance(n, ast.Constant) and type(n.value) is int and n not in docs:
            a, b = span(n)
            put(n, a, b, str(n.value + 1), 'const+1')
            if n.value > 0:
                put(n, a, b, str(n.value - 1), 'const-1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            put(n, a, b, str(not n.value), 'flip')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and n not in docs):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.col_offset <= 1:
                continue
            a, b = span(n)
            put(n, a, b, 'pass', 'delete')
        elif isinstance(n, ast.Continue):
            a, b = span(n)
            put(n, a, b, 'break', 'break')
            put(n, a, b, 'pass', 'pass')
        elif isinstance(n, ast.Break):
            a, b = span(n)
            put(n, a, b, 'pass', 'pass')
        elif isinstance(n, (ast.If,)):
            a, b = span(n.test)
            put(n, a, b, 'True', 'if True')
            put(n, a, b, 'False', 'if False')
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            put(n, a, b, 'None', 'return None')
        elif isinstance(n, ast.Raise):
            a, b = span(n)
            put(n, a, b, 'pass', 'no raise')
    for n in ast.walk(tree):   # fields of which only the lower half is taken, or that are taken for signed or unsigned
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('unpack', 'unpack_from') and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            a, b = span(n.args[0])
            v = n.args[0].value
            for j, c in enumerate(v):
                for t in {'Q': ['L4x'], 'q': ['l4x'], 'L': ['H2x'], 'l': ['h2x'], 'H': ['Bx'], 'h': ['bx']}.get(c, []):
                    if j and v[j - 1].isdigit():
                        continue
                    put(n, a, b, repr(v[:j] + t + v[j + 1:]), 'narrow')
    for line, a, b, t, what in sorted(out, key=lambda x: (x[0], x[1])):
        new = raw[:a] + t.encode() + raw[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        yield line, what, new.decode(), lines[line - 1].strip(), t


def run(args):
    def opt(name, d):
        if name in args:
            i = args.index(name)
            v = args[i + 1]
            del args[i:i + 2]
            return v
        return d
    lo, hi = map(int, opt('--lines', '1-1000000').split('-'))
    every = int(opt('--every', '1'))
    jobs = int(opt('--jobs', '8'))
    log = opt('--log', None)
    limit = float(opt('--limit', '240'))
    only = opt('--only', None)
    f, ids = args[0], args[1:]
    repo = os.environ.get('VERIF_REPO', '/repo')
    ms = list(mutants(open(os.path.join(repo, f)).read(), lo, hi))
    ms = [m for m in ms if (only or m[1]) == m[1]][::every]
    print(len(ms), 'changes', flush=True)
    out = open(log, 'a') if log else sys.stdout

    def work(k):
        line, what, new, text, t = k
        d = tempfile.mkdtemp(prefix='mut_')
        try:
            r = os.path.join(d, 'repo')
            os.mkdir(r)
            shutil.copytree(os.path.join(repo, 'dfir_ntfs'), os.path.join(r, 'dfir_ntfs'), ignore=shutil.ignore_patterns('__pycache__'))
            for x in os.listdir(repo):
                if not os.path.exists(os.path.join(r, x)) and x != '.git':
                    if os.path.isfile(os.path.join(repo, x)) and x in ('ntfs_parser', 'fat_parser'):
                        shutil.copy(os.path.join(repo, x), r)
                    elif x == 'test_data':
                        os.symlink(os.path.join(repo, x), os.path.join(r, x))
            open(os.path.join(r, f), 'w').write(new)
            res = []
            for pid in ids:
                try:
                    p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'one', pid, str(limit)], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 60)
                    s = p.stdout.strip()
                    if p.returncode and not s:
                        s = 'KILLED exit %d %s' % (p.returncode, p.stderr.strip()[-200:])
                except subprocess.TimeoutExpired:
                    s = 'KILLED by time'
                res.append(s)
                if s.startswith('KILLED'):
                    return None
            print('%s:%d [%s -> %s] %s  %s' % (f, line, what, t, text, '' if all(x == 'ALIVE' for x in res) else res), file=out, flush=True)
            return 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex:
        alive = sum(1 for x in ex.map(work, ms) if x)
    print('== %s %s: %d of %d changes unnoticed' % (f, ' '.join(ids), alive, len(ms)), file=out, flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'prepare':
        prepare(sys.argv[2:])
    elif sys.argv[1] == 'one':
        one(sys.argv[2], float(sys.argv[3]))
    else:
        run(sys.argv[2:])
