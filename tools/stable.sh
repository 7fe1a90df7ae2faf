#!/bin/bash
# builds /repo and says whether every stable test passes
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD-FAILED; exit 1; }
o=$(mktemp); bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return set(d[k])
    return set()
m=names(b)-names(o)
print('stable',len(names(b)),'missing',sorted(m)[:10]); sys.exit(bool(m) or not names(b))
P
