#!/bin/bash
# usage: chk.sh ; runs tests in /repo, prints missing stable tests
bash /opt/vp/build.sh || { echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=set(map(str,b['stable']))-set(map(str,o['passed']))
print("missing:",sorted(m)); sys.exit(1 if m else 0)
P
