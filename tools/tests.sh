#!/bin/bash
# runs the repository's tests and prints the ones of the baseline that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"
bash /opt/vp/test.sh /tmp/verif-t.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/verif-t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def flat(x):
    return set(x) if isinstance(x,list) else set(k for k,v in x.items() if v in (True,'pass','passed'))
want=None
for k in ('stable','tests','passed','pass'):
    if isinstance(b,dict) and k in b: want=flat(b[k]); break
if want is None: want=flat(b)
got=flat(d.get('passed',d.get('pass',d)))
print(len(want),'wanted; missing:',sorted(want-got)[:10])
P
rm -f /tmp/verif-t.json
