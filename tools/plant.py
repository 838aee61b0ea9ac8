"""plant.py SPEC.py... : makes seeded/<ID> from a spec (ID, PROP, EDITS, DEMO, NEEDS, BREAKS), in a scratch copy of /repo.

Confirms that the change passes the stable tests, that the demonstration passes without it and fails with it,
and says whether the check of the property reports it.  --check only runs the checks."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True)


def stable(d):
    out = os.path.join(d, 'junit.xml')
    e = {'MPLBACKEND': 'Agg', 'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1'}
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--basetemp=' + d + '/.tmp', '-o', 'junit_family=xunit2',
            '--junitxml=' + out, '--ignore=gridded/tests/test_projected_ugrid.py', 'gridded'], cwd=d, env=e)
    j = out + '.json'
    sh(['/usr/bin/python3', '/opt/vp/results.py', j, 'junit:' + out])
    res = json.load(open(j))
    base = json.load(open('/opt/vp/BASELINE.json'))
    key = next(k for k in ('passed', 'pass', 'stable', 'tests') if k in base)
    return [t for t in base[key] if t not in set(res['passed'])]


def demo(dst, d):
    return sh(['bash', os.path.join(dst, 'demo.sh')], cwd=d)


def check(prop, d):
    r = sh(['./check.sh', prop, 'quick'], cwd=V, env={'GRIDDED_REPO': d})
    return r.returncode, [l for l in r.stdout.splitlines() if l.strip()][-1:], r.stdout


def own(name, edits):
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo').stdout.split()
    first = sh(['git', 'log', '--format=%h', '--author=verif', '--reverse'], cwd='/repo').stdout.split()
    start = first[0] if first else "HEAD"
    for f, old, new in edits:
        orig = sh(['git', 'show', start + ':' + f], cwd='/repo').stdout.splitlines()
        n = new.splitlines()
        changed = [l for l in old.splitlines() if l not in n and l.strip()]
        bad = [l for l in changed if not any(l.strip() in o for o in orig)]
        if bad or not changed:
            print(name, 'NOTE lines not of the original:', bad, 'changed:', len(changed))


def plant(spec):
    s = runpy.run_path(spec)
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        shutil.rmtree(d)
        shutil.copytree('/repo', d, symlinks=True)
        for f, old, new in s['EDITS']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['ID'], 'EDIT not unique or missing:', t.count(old), old)
                return
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff', '--', 'gridded'], cwd=d).stdout
        own(s['ID'], s['EDITS'])
        dst = os.path.join(V, 'seeded', s['ID'])
        tmp = tempfile.mkdtemp(prefix='demo_')
        open(tmp + '/demo.py', 'w').write(s['DEMO'].lstrip())
        open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(tmp + '/meta.json', 'w'), indent=1)
        open(tmp + '/patch.diff', 'w').write(diff)
        a, b = demo(tmp, '/repo'), demo(tmp, d)
        if a.returncode != 0 or b.returncode == 0:
            print(s['ID'], 'DEMO: unchanged', a.returncode, a.stderr[-600:], 'changed', b.returncode, b.stdout[-300:])
            return
        missing = stable(d)
        if missing:
            print(s['ID'], 'TESTS FAIL', missing[:5])
            return
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(tmp, dst)
        shutil.rmtree(tmp)
        rc, last, out = check(s['PROP'], d)
        print(s['ID'], s['PROP'], 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, last, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


for x in sys.argv[1:]:
    plant(x)
