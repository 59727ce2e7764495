#!/bin/bash
# fix.sh <property> "<message>": builds, runs the stable tests, commits /repo's
# working tree as one fix and records it in known_findings.txt.
cd /repo || exit 1
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/fix-out.json >/tmp/fix-test.log 2>&1
python3 - <<'PY' || exit 1
import json, sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/fix-out.json'))
def names(o):
    for k in ('passed','pass','stable'):
        if isinstance(o,dict) and k in o: return set(o[k])
    return None
b=names(base); o=names(out)
if b is None or o is None: print("keys",list(base)[:10],list(out)[:10]); sys.exit(1)
miss=b-o
print("missing:",miss)
sys.exit(1 if miss else 0)
PY
git diff --stat | tail -1
git commit -qam "fix: $2" || exit 1
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt
echo "$h"
