#!/bin/bash
# runs the repository's tests and reports stable ones that fail
bash /opt/vp/test.sh /tmp/o.json > /tmp/o.log 2>&1; tail -12 /tmp/o.log | grep -v "^$" | tail -3
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("STABLE FAIL:",bad) if bad else print("stable ok")
P
