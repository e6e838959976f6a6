#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(x):
    for k in ('passed','stable','pass','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in ('passed','pass',True)}
    return {n for n,v in x.items() if v in ('passed','pass',True)}
B,T=passed(b),passed(t)
print('baseline',len(B),'now',len(T),'missing',sorted(B-T)[:10])
E
cd /repo && git status --short
