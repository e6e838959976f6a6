#!/usr/bin/env python3
"""try.py SPECS.py [--only id,id]: SPECS defines BUGS = [(id, prop, [(file, old, new), ...])].
Applies each to a copy of /repo and runs the property's quick check there."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[3].split(',') if '--only' in sys.argv else None

def one(b):
    i, prop, edits = b
    if isinstance(edits, tuple):
        edits = [edits]
    root = '/tmp/try/%s-%d' % (i, os.getpid())
    shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    try:
        for f, old, new in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: BAD SPEC %d occurrences of %r' % (i, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        t = time.time()
        r = subprocess.run(['/verif/run_check.sh', prop, '--no-evidence', '--jobs', '3'], env=dict(os.environ, VERIF_REPO=root),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout
        return '%-28s %s %s rc %d %.0f s' % (i, prop, 'caught' if hit else '**MISSED**', r.returncode, time.time() - t) + \
            ('' if r.returncode in (0, 1) else r.stdout[-300:])
    finally:
        shutil.rmtree(root)
os.makedirs('/tmp/try', exist_ok=True)
bugs = [b for b in ns['BUGS'] if not only or b[0] in only]
with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, bugs):
        print(x, flush=True)
