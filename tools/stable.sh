#!/bin/bash
# Runs the repository's stable tests on /repo and reports any that no longer pass.
bash /opt/vp/test.sh /tmp/vh-test-out.json >/tmp/vh-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/vh-test-out.json'))
bad=[t for t in b['stable'] if t not in set(o['passed'])]
print("stable",len(b['stable']),"broken",len(bad),bad[:10])
P
rm -f /tmp/vh-test-out.json
