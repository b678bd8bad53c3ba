#!/bin/bash
# developer aid: the repository's stable tests on a scratch copy (default /tmp/wt); prints the stable tests that fail
wt=${WT:-/tmp/wt}
sed -e "s#/repo#$wt#g" -e "s#export PYTHONDONTWRITEBYTECODE=1#export PYTHONPATH=$wt/src PYTHONDONTWRITEBYTECODE=1#" /opt/vp/test.sh > /tmp/wttest.run
bash /tmp/wttest.run /tmp/wttest.json > /tmp/wttest.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/wttest.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(d.get('passed',[]))
bad=[t for t in s if t not in ok]
print("tests:", len(s)-len(bad), "of", len(s), "stable pass", bad[:6])
P
