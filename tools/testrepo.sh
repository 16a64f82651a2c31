#!/bin/bash
# build, run the test-suite and compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return x.keys()
print('baseline', len(names(b)), 'now', len(names(t)), 'lost', sorted(names(b)-names(t)), 'gained', sorted(names(t)-names(b)))
P
