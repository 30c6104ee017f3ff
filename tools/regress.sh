#!/bin/bash
# the stable tests of /repo against the baseline
bash /opt/vp/test.sh /tmp/regress.json >/tmp/regress.log 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/regress.json'))
def ids(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {t for t,v in x[k].items() if v in('passed',True)}
    print(list(x)[:5]); return set()
m=ids(b)-ids(r)
print('baseline',len(ids(b)),'now',len(ids(r)),'MISSING' if m else 'ok',sorted(m)[:10])
P
