#!/bin/bash
# dev helper: build /repo and compare the stable tests
bash /opt/vp/build.sh >/tmp/bl 2>&1 || { tail -20 /tmp/bl; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tl 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('broken:',sorted(set(b['stable'])-set(t['passed'])), 'passed',len(t['passed']),'failed',len(t['failed']))
P
