#!/usr/bin/env python3
"""commit_fix.py <property[,property]> <subject> <what failed>: test, commit in
/repo and record the repair in known_findings.json."""
import json, subprocess, sys, os
props, subject, what = sys.argv[1:4]
out = subprocess.run(['/verif/tools/rt.sh'], capture_output=True, text=True).stdout
if 'missing []' not in out:
    print(out); sys.exit('tests fail')
subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', 'fix: ' + subject])
sha = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=10', 'HEAD'], text=True).strip()
path = '/verif/known_findings.json'
db = json.load(open(path)) if os.path.exists(path) else {'findings': []}
for p in props.split(','):
    db['findings'].append({'property': p, 'status': 'fixed', 'commit': sha,
        'line': 'fixed: property=%s %s %s' % (p, sha, what)})
json.dump(db, open(path, 'w'), indent=1)
print(sha, subject)
