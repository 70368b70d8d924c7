#!/usr/bin/env python3
"""run.py check PID [--tier quick|thorough] | run.py replay FILE | run.py all [--tier ..]"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or (os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
    if not os.environ.get('VERIF_REEXEC'):
        os.environ.update(PYTHONHASHSEED='0', VERIF_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
        os.environ.pop('PYTHONPATH', None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execv(exe, [exe] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import runner  # noqa: E402


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a[0] == 'check':
        sys.exit(runner.run_check(load(a[1]), a[1], tier, seed))
    if a[0] == 'replay':
        rec = json.load(open(a[1]))
        sys.exit(runner.replay(load(rec['property']), rec['property'], rec))
    if a[0] == 'all':
        import subprocess
        bad = 0
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        sel = a[1:]
        for c in man['checks']:
            if sel and c['property'] not in sel:
                continue
            rc = subprocess.call([sys.executable, __file__, 'check', c['property'], '--tier', tier])
            if rc:
                bad += 1
                print('  ** %s exit %d' % (c['property'], rc))
            sys.stdout.flush()
        sys.exit(1 if bad else 0)
    sys.exit(__doc__)


main()
