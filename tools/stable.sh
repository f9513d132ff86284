#!/bin/bash
# run the stable tests of /repo and say which of them fail
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
a = json.load(open('/opt/vp/BASELINE.json')); b = json.load(open('/tmp/stable.json'))
print(len(a['stable']), 'stable, failing:', sorted(set(a['stable']) - set(b['passed'])))
P
