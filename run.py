#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   |   run.py --replay FILE"""
import os
import shutil
import sys
import tempfile

PY = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('VERIF_READY') != '1':
    env = dict(os.environ, VERIF_READY='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1',
               LANG='C.UTF-8')
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONPYCACHEPREFIX', None)
    own = 'VERIF_SCRATCH' not in env
    if own:
        env['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='verif-')
    import subprocess
    rc = 2
    try:
        rc = subprocess.call([PY, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        if own:
            shutil.rmtree(env['VERIF_SCRATCH'], ignore_errors=True)
    sys.exit(rc)

sys.path.append('/opt/venv/lib/python3.12/site-packages')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)
_scratch = os.environ['VERIF_SCRATCH']
os.makedirs(_scratch, exist_ok=True)
REPO = os.environ.get('VERIF_REPO', '/repo')
shutil.copy(os.path.join(REPO, 'config.yaml'), os.path.join(_scratch, 'config.yaml'))
os.chdir(_scratch)
import runner  # noqa: E402

if sys.argv[1] == '--replay-batch':
    runner.replay_main(sys.argv[2])
    sys.exit(0)
if sys.argv[1] == '--replay':
    sys.exit(runner.replay_one(sys.argv[2]))
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
sys.exit(runner.main(sys.argv[1], tier))
