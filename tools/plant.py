#!/usr/bin/env python3
"""Plant a bug: python3 tools/plant.py <id> confirms seeded/<id> (patch applies, tests pass, demo
discriminates) in a scratch copy and says whether the check of its property reports it.
With --make <definition.py>, first write seeded/<id> from a definition (PROPERTY, FILE, EDITS, NEEDS, BREAKS, DEMO, FILES)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1500):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def main():
    args = sys.argv[1:]
    make = None
    if '--make' in args:
        make = args[args.index('--make') + 1]
    tests = '--no-tests' not in args
    bid = [a for a in args if not a.startswith('--') and a != make][0]
    d = os.path.join(V, 'seeded', bid)
    work = tempfile.mkdtemp(prefix='plant_')
    repo = os.path.join(work, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        if make:
            g = runpy.run_path(make)
            os.makedirs(d, exist_ok=True)
            for fn, old, new in g['EDITS']:
                p = os.path.join(repo, fn)
                s = open(p, newline='').read()
                assert s.count(old) == g.get('COUNT', {}).get(old, 1), (fn, s.count(old), old)
                open(p, 'w', newline='').write(s.replace(old, new))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', repo).stdout)
            sh('git checkout -- .', repo)
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$D/demo.py"\n')
            open(os.path.join(d, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
            for f in g.get('FILES', []):
                shutil.copy(os.path.join(V, 'harness', f), d)
            json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        r = sh('bash %s/demo.sh' % d, repo, timeout=300)
        print('demo unchanged rc', r.returncode, r.stdout[-300:] if r.returncode else '')
        r = sh('git apply %s/patch.diff' % d, repo)
        print('apply rc', r.returncode, r.stdout)
        r = sh('bash %s/demo.sh' % d, repo, timeout=300)
        print('demo patched rc', r.returncode, r.stdout[-300:])
        if tests:
            # the test runner works on /repo, so only the unit tests of the copy are run here
            r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 test_cases.py 2>&1 | tail -3', repo)
            print('tests:', r.stdout[-700:])
        if '--no-check' not in args:
            r = sh('python3 run.py %s' % pid, V, dict(os.environ, VERIF_REPO=repo))
            print('check rc', r.returncode, r.stdout[-600:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
