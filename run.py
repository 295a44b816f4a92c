#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import lib

ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
a = ap.parse_args()
lib.import_repo()
prop = importlib.import_module('props.' + a.pid.lower())
try:
    sys.exit(lib.replay(prop, a.replay) if a.replay else lib.run_check(prop, a.tier, a.seed))
except lib.MachineryError as e:
    print('MACHINERY: %s' % e)
    sys.exit(2)
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
