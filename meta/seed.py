"""Plants bugs: python3 meta/seed.py ID...  reads meta/seeds.py (SEEDS), applies each to /repo for a moment, confirms that it
builds, passes the stable tests and is shown by its demonstration, and writes seeded/<id>/."""
import json, os, subprocess, sys
sys.path.insert(0, '/verif/meta')
from edit import sub

PRE = '''import sys
import os
sys.path[:0] = ['/opt/vp/py2compat', '/repo']
import py2compat
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Rec(object):
    def __init__(self, **data):
        self.data = dict({'ID': 'SHIP', 'UID': 'U1', 'YR': 2000, 'MO': 6, 'DY': 1, 'HR': 0.0, 'LAT': 0.0, 'LON': 0.0}, **data)

'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
D=$(mktemp -d /tmp/demo.XXXXXX)
export SCRATCH=$D
here=$(cd "$(dirname "$0")" && pwd)
cd "$D" && /opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$D"
exit $rc
'''


def run(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def restore():
    run('git', '-C', '/repo', 'checkout', '--', '.')


def stable(out):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) and 'tests' in json.load(open('/opt/vp/BASELINE.json')) else None
    return base


def plant(s):
    assert run('git', '-C', '/repo', 'status', '--porcelain').stdout == '', 'dirty'
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    clean = run('bash', d + '/demo.sh', cwd='/repo')
    try:
        for f, old, new in s['edits']:
            sub('/repo/' + f, old, new)
        open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout)
        build = run('bash', '/opt/vp/build.sh')
        tests = run('bash', '/opt/vp/test.sh', '/tmp/seedtest.json')
        bad = run('bash', d + '/demo.sh', cwd='/repo')
    finally:
        restore()
    ap = run('git', '-C', '/repo', 'apply', '--check', d + '/patch.diff')
    ok = clean.returncode == 0 and bad.returncode != 0 and build.returncode == 0 and '376 passed' in tests.stdout and ap.returncode == 0
    print(s['id'], 'OK' if ok else 'REJECTED', 'clean', clean.returncode, 'patched', bad.returncode, 'build', build.returncode,
          tests.stdout.strip().split('\n')[-1], bad.stdout.strip().split('\n')[-1][:100])
    if not ok:
        print(clean.stdout[-400:])
        run('rm', '-r', d)


if __name__ == '__main__':
    import seeds
    todo = sys.argv[1:]
    for s in seeds.SEEDS:
        if s['id'] in todo or not todo and not os.path.exists('/verif/seeded/' + s['id']):
            plant(s)
