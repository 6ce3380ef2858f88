#!/bin/bash
# build /repo and run its tests; print tests of the baseline that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: return set(map(str,x[k]))
    return set(map(str,x))
bn,tn=names(b),names(t)
print('baseline',len(bn),'passing',len(tn),'missing',sorted(bn-tn)[:10])
P
