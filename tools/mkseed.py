#!/usr/bin/env python3
"""mkseed.py BATCH.py [id ...]: build planted bugs from a batch file that calls seed(id, property, needs, breaks, edits, demo),
confirm each in /repo (which is restored), keep it under seeded/<id>/ and report which checks catch it."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
BASE = json.load(open('/opt/vp/BASELINE.json'))
SEEDS = []
LIB = "import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n"
PLAIN = "import sys, os\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n"


def seed(id, prop, needs, breaks, edits, demo, plain=False, checks=None):
    SEEDS.append((id, prop, needs, breaks, edits, demo, plain, checks or [prop]))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    assert not sh(['git', '-C', R, 'status', '--porcelain']).stdout.strip(), '/repo not clean'


exec(open(sys.argv[1]).read())
only = sys.argv[2:]
for id, prop, needs, breaks, edits, demo, plain, checks in SEEDS:
    if only and id not in only:
        continue
    clean()
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + '/demo.py', 'w') as fh:
        fh.write((PLAIN if plain else LIB) + demo.lstrip('\n'))
    if not plain:
        shutil.copy(V + '/tools/demolib.py', d)
    with open(d + '/demo.sh', 'w') as fh:
        fh.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    with open(d + '/meta.json', 'w') as fh:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), fh, indent=1)
    a = sh(['bash', d + '/demo.sh'], cwd=R)
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %r occurs %d times in %s' % (id, old, s.count(old), f))
            with open(p, 'w') as fh:
                fh.write(s.replace(old, new))
        with open(d + '/patch.diff', 'w') as fh:
            fh.write(sh(['git', '-C', R, 'diff']).stdout)
        # do the removed lines exist in the base commit?
        base = sh(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
        bl = sh(['git', '-C', R, 'blame', '-s', 'HEAD', '--'] + [edits[0][0]]).stdout.splitlines()
        own = {l.split(') ', 1)[1] for l in bl if not l.startswith('^')}
        removed = [l[1:] for l in open(d + '/patch.diff') if l.startswith('-') and not l.startswith('---')]
        mine = [l for l in removed if l.rstrip('\n') in own]
        b = sh(['bash', d + '/demo.sh'], cwd=R)
        sh(['bash', '/opt/vp/build.sh'])
        t = sh(['bash', '/opt/vp/test.sh', '/tmp/mkseed.json'])
        res = json.load(open('/tmp/mkseed.json'))
        passed = set(res['passed']) if isinstance(res['passed'], list) else set(k for k in res['passed'])
        want = set(BASE['stable'])
        lost = want - passed
        caught = []
        if not os.environ.get('NOCHECK'):
            for c in checks:
                r = sh(['python3', V + '/run.py', c, 'quick'], cwd=V)
                caught.append('%s:%s' % (c, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % c in r.stdout else 'missed(%d)' % r.returncode))
                if os.environ.get('SHOW'):
                    print(r.stdout[:1500])
    finally:
        sh(['git', '-C', R, 'checkout', '--', '.'])
    ok = a.returncode == 0 and b.returncode != 0 and not lost
    print('%-22s %s demo %d/%d lost=%s own=%d %s' % (id, 'OK ' if ok else 'BAD', a.returncode, b.returncode, sorted(lost)[:3], len(mine), ' '.join(caught)), flush=True)
    if not ok:
        print('   unpatched:', a.stdout[-400:], '\n   patched:', b.stdout[-600:])
