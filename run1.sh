#!/bin/bash
# developer aid: run a check with scratch evidence and show per-job statistics
cd /verif; P=$1; shift
time PYTHONPATH=/verif SYMX_REPO=${R:-/repo} SYMX_EVIDENCE=/tmp/ev SYMX_REPLAYS=/tmp/rep SYMX_DEBUG=1 SYMX_STRICT=1 timeout 900 /opt/venv/bin/python -m symx.run $P "$@" 2>&1 | cut -c1-${W:-1500} | head -${N:-60}
python3 - $P <<'P'
import json,sys
L=json.load(open('/tmp/ev/%s.json'%sys.argv[1]))['coverage']['harnesses']
for h in L[:int(__import__('os').environ.get('M','25'))]: print(h['harness'],str(h['params'])[:150],h['status'],h['paths'],h['solver_s'],h['queries'],h['reached'])
P
