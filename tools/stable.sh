#!/bin/bash
# builds, runs the repository's tests and prints the stable ones that fail
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('missing',m)
raise SystemExit(1 if m else 0)
P
