#!/bin/bash
# runs the repository's stable tests and compares with the baseline
o=$(mktemp /tmp/res.XXXX.json); bash /opt/vp/test.sh $o 2>&1 | tail -3
/usr/bin/python3 - $o <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x and isinstance(x[k],list): return set(x[k])
    return None
B,R=names(b),names(r)
print('baseline',B and len(B),'passed',R and len(R),'missing',sorted(B-R)[:10] if B and R else (list(b)[:5],list(r)[:5]))
P
rm -f $o
