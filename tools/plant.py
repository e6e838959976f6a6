#!/usr/bin/env python3
"""plant.py SPEC.py: make and verify a planted bug.
SPEC defines: id, prop, needs, breaks, edits=[(file, old, new)], demo (Python
source, run with /repo as working directory and on the path; may use files
beside it).  Applies to a clean /repo, confirms build + tests + demo both ways,
runs the check, undoes the change."""
import json, os, subprocess, sys, time
REPO = '/repo'
BASE = '6536f96'
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def git(*a):
    return sh('git', '-C', REPO, *a)
def passed(p):
    x = json.load(open(p))
    for k in ('passed', 'stable', 'pass', 'tests'):
        if k in x:
            return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v in ('passed', 'pass', True)}
    return {n for n, v in x.items() if v in ('passed', 'pass', True)}
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the patch
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 TZ=UTC PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def one(spec, check=True):
    ns = {}
    exec(open(spec).read(), ns)
    d = '/verif/seeded/' + ns['id']
    assert not git('status', '--porcelain').stdout.strip(), 'repo not clean'
    old_lines = {}
    try:
        for f, old, new in ns['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %d occurrences in %s of %r' % (ns['id'], s.count(old), f, old))
            s2 = s.replace(old, new)
            open(p, 'w').write(s2)
        diff = git('diff').stdout
        files = sorted({e[0] for e in ns['edits']})
        # changed lines must be original ones
        touched = fresh = 0
        for f in files:
            blame = git('blame', '-s', '-l', 'HEAD', '--', f).stdout.split('\n')
            base = git('rev-list', BASE).stdout.split()
            cur = None
            for l in git('diff', '-U0', '--', f).stdout.split('\n'):
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(st, st + n):
                        touched += 1
                        h = blame[i - 1].split()[0].lstrip('^')
                        if not any(b.startswith(h) for b in base):
                            fresh += 1
        print(ns['id'], 'lines removed:', touched, 'of my commits:', fresh)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(ns['demo'].lstrip())
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash', '/opt/vp/build.sh')
        assert b.returncode == 0, b.stdout
        sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
        missing = passed('/opt/vp/BASELINE.json') - passed('/tmp/plant.json')
        print('  tests missing:', sorted(missing)[:5])
        r = sh(d + '/demo.sh', cwd=REPO)
        print('  demo with patch:', r.returncode, r.stdout.strip().split('\n')[-1][:150])
        ok = r.returncode != 0 and not missing
        caught = None
        if check:
            t = time.time()
            c = sh('./run_check.sh', ns['prop'], '--no-evidence', cwd='/verif')
            caught = c.returncode == 1 and 'VIOLATION property=' + ns['prop'] in c.stdout
            print('  check rc', c.returncode, 'CAUGHT' if caught else 'MISSED', '%.1f s' % (time.time() - t))
            print('\n'.join('    ' + x[:160] for x in c.stdout.split('\n')[1:4]))
    finally:
        git('checkout', '--', '.')
    r = sh(d + '/demo.sh', cwd=REPO)
    print('  demo unchanged:', r.returncode, r.stdout.strip()[-200:])
    ok = ok and r.returncode == 0
    print('  ', 'VALID' if ok else 'INVALID')
    if not ok:
        sh('rm', '-r', d)
for s in sys.argv[1:]:
    one(s)
