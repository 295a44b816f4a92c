"""Shared machinery of the model-based checks.

One check = one TLA+ module (spec/<Module>.tla) plus one binding (harness/props/<id>.py).

  * TLC explores the module exhaustively over its small-scope inputs, checks the invariants, and
    emits, for every completed behaviour, the pair (input, observation required by the model).
  * The binding turns an abstract input into a concrete image/call history, runs the code in
    /repo on it, and abstracts what came back into the same observation vocabulary.
  * Larger inputs made by the binding's seeded generator are handed to the very same TLA+ module
    (environment variable CASES), so that the model says what the code must show on them too.

A difference between the two observations is a violation.
"""
import pickle, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, multiprocessing, random, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CASE_TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '15'))


class MachineryError(Exception):
    """The check itself could not be carried out (exit code 2, never a VIOLATION)."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def import_repo():
    """Make 'import dfir_ntfs' load the working tree in /repo and nothing else."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import dfir_ntfs
    if os.path.realpath(os.path.dirname(dfir_ntfs.__file__)) != os.path.realpath(os.path.join(REPO, 'dfir_ntfs')):
        raise MachineryError('dfir_ntfs was not imported from ' + REPO)


class ReadOnlyFile(object):
    """A file object over bytes that records the highest offset read and refuses every mutation."""

    def __init__(self, data):
        self._d = bytes(data)
        self._p = 0
        self.calls = set()

    def seek(self, offset, whence=0):
        if whence == 0:
            p = offset
        elif whence == 1:
            p = self._p + offset
        elif whence == 2:
            p = len(self._d) + offset
        else:
            raise ValueError('whence')
        if p < 0:
            raise OSError(22, 'Invalid argument')
        self._p = p
        return p

    def tell(self):
        return self._p

    def read(self, size=-1):
        if size is None or size < 0:
            b = self._d[self._p:]
        else:
            b = self._d[self._p:self._p + size]
        self._p += len(b)
        return b

    def close(self):
        pass


# ---------------------------------------------------------------- TLC

class TLCResult(object):
    pass


def run_tlc(module, constants=None, env=None, workers=4, timeout=800, heap='6g', invariants=None, cfg_extra='', spec_dir=None, properties=None, init_next=None):
    """Run TLC on spec/<module>.tla; return statistics and emitted records."""
    spec_dir = spec_dir or os.path.join(VERIF, 'spec')
    work = tempfile.mkdtemp(prefix='vtlc_')
    try:
        for fn in os.listdir(spec_dir):
            if fn.endswith('.tla') or fn.endswith('.cfg'):
                shutil.copy(os.path.join(spec_dir, fn), work)
        base = os.path.join(work, module + '.cfg')
        text = open(base).read() if os.path.exists(base) else 'SPECIFICATION Spec\n'
        if constants:
            text += '\nCONSTANTS\n' + '\n'.join('  %s <- c_%s' % (k, k) for k in constants) + '\n'
        with open(os.path.join(work, 'RunMC.tla'), 'w') as f:
            f.write('---- MODULE RunMC ----\nEXTENDS %s\n' % module)
            f.write(''.join('c_%s == %s\n' % kv for kv in (constants or {}).items()))
            f.write('====\n')
        for inv in invariants or []:
            text += '\nINVARIANT %s\n' % inv
        text += cfg_extra
        cfg = os.path.join(work, '_run.cfg')
        open(cfg, 'w').write(text)
        e = dict(os.environ)
        e.pop('CASES', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-fp', '1', '-config', cfg, os.path.join(work, 'RunMC.tla')]
        out_path = os.path.join(work, 'out.txt')
        t0 = time.time()
        with open(out_path, 'w') as f:
            try:
                rc = subprocess.run(cmd, cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC timed out on ' + module)
        r = TLCResult()
        r.module, r.rc, r.wall = module, rc, time.time() - t0
        r.emitted = []
        r.generated = r.distinct = 0
        other = []
        with open(out_path, errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    r.emitted.append(json.loads(json.loads(line)[2:]))
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                if m:
                    r.generated, r.distinct = int(m.group(1)), int(m.group(2))
                other.append(line)
        r.log = ''.join(other)
        r.violated = re.findall(r'Invariant (\S+) is violated', r.log) + re.findall(r'(Temporal properties were violated|Deadlock reached|Action property \S+)', r.log)
        if rc != 0 and not r.violated:
            raise MachineryError('TLC failed on %s (rc %d):\n%s' % (module, rc, r.log[-6000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- executing the code under test

_prop = None


def _init_worker(modname):
    global _prop
    import importlib
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(3000)
    import_repo()
    _prop = importlib.import_module(modname)
    _arm()


_timeouts = 0
_limit = CASE_TIMEOUT


def _arm():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


def _timer(seconds):
    """Processor time, so that a busy machine does not look like a loop; real time only as a last resort."""
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, seconds * 12)


def _exec(inp):
    global _timeouts
    if _timeouts >= 3:  # already a violation; do not spend the whole budget on more of the same
        return {'st': 'skipped-after-repeated-no-answer'}
    _timer(_limit)
    try:
        try:
            return _prop.execute(inp)
        finally:
            _timer(0)
    except CaseTimeout:
        _timeouts += 1
        return {'st': 'no-answer-within-%ds' % _limit}
    except MachineryError:
        raise
    except BaseException as e:  # the binding lets through what the code must never raise
        tb = traceback.extract_tb(e.__traceback__)
        if not any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO)) for f in tb):
            # what the code returned is not of the expected shape at all
            return {'st': 'unexpected-result', 'tb': traceback.format_exc()[-800:]}
        return {'st': 'crash', 'exc': type(e).__name__, 'msg': str(e)[:200], 'at': '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)}


def _chunk(xs):
    return [_exec(x) for x in xs]


def execute_all(modname, inputs, procs=8, chunk=None):
    if not inputs:
        return []
    chunk = chunk or max(1, min(200, len(inputs) // (procs * 4) + 1))
    parts = [inputs[i:i + chunk] for i in range(0, len(inputs), chunk)]
    with multiprocessing.get_context('fork').Pool(procs, _init_worker, (modname,)) as pool:
        res = pool.map(_chunk, parts, 1)
    out = [o for p in res for o in p]
    # An answer that did not come in time is asked for once more, alone and with more time.
    late = [i for i, o in enumerate(out) if _late(o)]
    if late:
        with multiprocessing.get_context('fork').Pool(1, _init_late, (modname,)) as pool:
            first = pool.apply(_exec, (inputs[late[0]],))
        out[late[0]] = first
        if not _late(first):
            with multiprocessing.get_context('fork').Pool(procs, _init_late, (modname,)) as pool:
                again = [i for i, o in enumerate(out) if _late(o)]
                for i, o in zip(again, pool.map(_exec, [inputs[i] for i in again], 1)):
                    out[i] = o
    return out


def _late(o):
    return isinstance(o, dict) and 'no-answer' in str(o.get('st', ''))


def _init_late(modname):
    global _limit
    _init_worker(modname)
    _limit = 3 * CASE_TIMEOUT


def norm(x):
    """Canonical JSON (TLC has no null/tuples; booleans stay booleans)."""
    return json.loads(json.dumps(x, sort_keys=True))


# ---------------------------------------------------------------- the check driver

def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                o = json.loads(line)
                if o.get('property') == pid and o.get('status') == 'open':
                    res.append(o)
    return res


def run_check(prop, tier, seed):
    t0 = time.time()
    pid = prop.ID
    modname = prop.__name__
    import_repo()
    rng = random.Random('%s/%d/%s' % (pid, seed, tier))
    runs = prop.runs(tier)               # list of dict(module=, constants=, invariants=...)
    fams = {}
    for r in runs:
        fams.setdefault(r['module'], []).append(r)
    random_inputs = {}
    for name, gen in getattr(prop, 'GENERATORS', {}).items():
        random_inputs[name] = [norm(x) for x in gen(rng, tier)]
    work = tempfile.mkdtemp(prefix='vcase_')
    from concurrent.futures import ThreadPoolExecutor
    violations, samples, nstates, ntrans, validated, findings_hit = [], [], 0, 0, 0, []
    known = known_findings(pid)
    per_run = []
    try:
        jobs = []
        given = set()
        for r in runs:
            env = {}
            m = r['module']
            if m in random_inputs and m not in given and r.get('cases', True):
                given.add(m)
                p = os.path.join(work, m + '.ndjson')
                with open(p, 'w') as f:
                    for x in random_inputs[m]:
                        f.write(json.dumps(x) + '\n')
                env['CASES'] = p
                r = dict(r, ncases=len(random_inputs[m]))
            kw = {k: v for k, v in r.items() if k in ('constants', 'invariants', 'cfg_extra', 'workers', 'heap', 'timeout')}
            jobs.append((r, env, kw))
        with ThreadPoolExecutor(max_workers=4) as ex:
            futs = [ex.submit(run_tlc, r['module'], env=env, **kw) for r, env, kw in jobs]
            # meanwhile, run the code on the seeded inputs
            observed = {m: execute_all(modname, [dict(x, _m=m) for x in xs], procs=5) for m, xs in random_inputs.items()}
            results = [f.result() for f in futs]
        for (r, env, kw), res in zip(jobs, results):
            m = r['module']
            nstates += res.distinct
            ntrans += res.generated
            if res.violated:
                # a property of the specification itself fails: the specification (not the code) is at fault
                raise MachineryError('specification %s violates %s\n%s' % (m, res.violated, res.log[-5000:]))
            enum = [e for e in res.emitted if e['id'] == 0]
            rec = [e for e in res.emitted if e['id'] != 0]
            if 'ncases' in r and len({e['id'] for e in rec}) != r['ncases']:
                raise MachineryError('%s: model answered %d of %d recorded inputs' % (m, len({e['id'] for e in rec}), r['ncases']))
            ins = [norm(e['inp']) for e in enum]
            obs = execute_all(modname, [dict(x, _m=m) for x in ins])
            pairs = [(i, norm(e['obs']), norm(o), 'enumerated') for i, e, o in zip(ins, enum, obs)]
            if rec:
                allowed = {}
                for e in rec:
                    allowed.setdefault(e['id'], []).append(norm(e['obs']))
                for k, al in sorted(allowed.items()):
                    o = norm(observed[m][k - 1])
                    pairs.append((random_inputs[m][k - 1], al[0] if o not in al else o, o, 'seeded'))
            cmp = getattr(prop, 'agree', None)
            if os.environ.get('VERIF_DUMP'):    # for tools/mutate.py: what was required of the code
                with open(os.environ['VERIF_DUMP'], 'ab') as f:
                    pickle.dump((m, [(i, w) for i, w, _, _ in pairs]), f)
            nm = 0
            outcomes = {}
            for i, want, got, src in pairs:
                if isinstance(want, dict) and 'st' in want:
                    outcomes[str(want['st'])] = outcomes.get(str(want['st']), 0) + 1
                validated += 1
                ok = cmp(m, i, want, got) if cmp else want == got
                if not ok:
                    nm += 1
                    violations.append(dict(module=m, source=src, input=i, required=want, observed=got))
            per_run.append(dict(module=m, constants=r.get('constants', {}), distinct_states=res.distinct, states_generated=res.generated,
                                enumerated_inputs=len(enum), seeded_inputs=len(rec and allowed or {}), mismatches=nm, required_outcomes=outcomes, tlc_wall_s=round(res.wall, 1)))
            if pairs:
                for idx in sorted({0, len(pairs) // 2, len(pairs) - 1})[:3]:
                    i, want, got, src = pairs[idx]
                    s = json.dumps(dict(module=m, source=src, input=i, required=want, observed=got))
                    samples.append(json.loads(s) if len(s) < 4000 else dict(module=m, source=src, text=s[:4000]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fresh = []
    for v in violations:
        hit = None
        for k in known:
            if k['module'] == v['module'] and norm(k['input']) == v['input']:
                hit = k
        if hit:
            if hit not in findings_hit:
                findings_hit.append(hit)
        else:
            fresh.append(v)
    for k in findings_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
              coverage=dict(states=nstates, transitions=ntrans, traces_validated_against_impl=validated, samples=samples[:8], runs=per_run))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if validated == 0:
        raise MachineryError('nothing was validated')
    if fresh:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        path = os.path.join(VERIF, 'out', '%s-violation.json' % pid)
        fresh.sort(key=lambda v: len(json.dumps(v['input'])))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, total=len(fresh), replay_cmd='python3 %s/run.py %s --replay %s' % (VERIF, pid, path), violations=fresh[:20]), f, indent=1)
        v = fresh[0]
        print('%d of %d behaviours differ from the specification; the smallest:' % (len(fresh), validated))
        print('  module   ' + v['module'])
        print('  input    ' + json.dumps(v['input'])[:1500])
        print('  required ' + json.dumps(v['required'])[:1500])
        print('  observed ' + json.dumps(v['observed'])[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s holds: %d model states, %d behaviours of the code compared with the specification, %.1f s' % (pid, nstates, validated, time.time() - t0))
    return 0


def replay(prop, path):
    import_repo()
    _arm()
    global _prop
    _prop = prop
    bad = 0
    for v in json.load(open(path))['violations']:
        got = norm(_exec(dict(v['input'], _m=v['module'])))
        same = got == v['required']
        bad += not same
        print(json.dumps(dict(input=v['input'], required=v['required'], observed=got, agrees=same)))
    return 1 if bad else 0
