#!/usr/bin/env python3
"""Nothing to build: confirm the tools are there and every specification parses."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
specs = [os.path.basename(p) for p in sorted(glob.glob(os.path.join(V, 'spec', '*.tla')))]
r = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY'] + specs, cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = r.returncode != 0 or 'Fatal errors' in r.stdout or '*** Errors' in r.stdout
if bad:
    print(r.stdout[-4000:])
sys.exit(1 if bad else 0)
