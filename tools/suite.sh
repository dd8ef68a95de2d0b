#!/bin/bash
# runs the repository's own tests and reports stable tests that do not pass
out=$(mktemp); bash /opt/vp/test.sh $out >/tmp/suite.log 2>&1
python3 - $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable not passing:',len(miss), miss[:10])
PY
rm -f $out
