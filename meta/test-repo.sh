#!/bin/bash
# runs the repository's tests; prints stable ones that fail
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/out.json')).get('passed',[]))
print("stable", len(b), "failing:", sorted(b-o))
P
rm -f /tmp/out.json /tmp/test.log
git -C /repo status --short
