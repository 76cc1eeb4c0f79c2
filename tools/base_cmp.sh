#!/bin/bash
# runs the repository's tests and lists stable tests that no longer pass
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/out.json'))['passed'])
print("stable not passing:", sorted(b-o))
P
