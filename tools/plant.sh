#!/bin/bash
# developer aid: record the change made in a scratch copy (default /tmp/wt) as seeded/<id>, after trying its demo both ways
# usage: plant.sh ID PROPERTY   (with seeded/ID/demo.py and meta.json written)
id=$1; wt=${WT:-/tmp/wt}; d=/verif/seeded/$id
cat > $d/demo.sh <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/home"
HOME="$work/home" SCRATCH="$work" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" timeout 200 /opt/venv/bin/python "$here/demo.py"
S
cd $wt || exit 3
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
bash $d/demo.sh > /tmp/demo.out 2>&1; bad=$?
git checkout -q -- .
bash $d/demo.sh > /tmp/demo.ok 2>&1; ok=$?
echo "$id clean=$ok patched=$bad"; tail -2 /tmp/demo.out
[ $ok = 0 ] || tail -5 /tmp/demo.ok
git apply $d/patch.diff; bash /verif/tools/wttest.sh; git checkout -q -- .
