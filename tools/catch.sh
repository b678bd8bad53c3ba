#!/bin/bash
# developer aid: run the check of a planted bug's property against a scratch copy with the bug
# usage: catch.sh ID [PROPERTY]
id=$1; d=/verif/seeded/$id; w=/tmp/catch.$$
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
mkdir -p $w; cp -a /repo/src /repo/tests /repo/.git $w/; git -C $w apply --include='src/*' $d/patch.diff || exit 3
cd /verif; s=$(date +%s)
SYMX_REPO=$w SYMX_EVIDENCE=$w/ev SYMX_REPLAYS=$w/rep PYTHONPATH=/verif timeout 900 /opt/venv/bin/python -m symx.run $p quick > $w/out 2>&1; rc=$?
echo "$id $p rc=$rc $(( $(date +%s) - s ))s"; grep -m2 VIOLATION $w/out | cut -c1-300; [ $rc = 1 ] || tail -5 $w/out | cut -c1-400
rm -rf $w
