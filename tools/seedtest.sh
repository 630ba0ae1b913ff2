#!/bin/bash
# seedtest.sh <seed id> [nochk] - confirm a planted bug: tests still pass, the demonstration fails with it and passes
# without it, and run its property's check.  Applies the patch to /repo and always takes it back.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
tmp=$(mktemp -d)
cp -r $d/. $tmp/; rm -f $tmp/patch.diff $tmp/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $tmp/demo.sh >$tmp/clean.log 2>&1); a=$?
git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; exit 8; }
bash /opt/vp/test.sh /tmp/x/seed_t.json >$tmp/t.log 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/x/seed_t.json'))
st=b.get('stable') or b.get('passed') or b
print(len([x for x in st if x not in t['passed']]))
P
)
(cd /repo && timeout 300 bash $tmp/demo.sh >$tmp/bug.log 2>&1); c=$?
k=-
if [ "$2" != nochk ]; then VERIF_SEED=1 VERIF_TIER=quick python3 /verif/tools/check.py $p >$tmp/chk.log 2>&1; k=$?; fi
undo; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id $p demo_clean=$a demo_bug=$c tests_lost=$t check=$k"
[ $a = 0 ] || tail -5 $tmp/clean.log
[ $c != 0 ] || tail -5 $tmp/bug.log
[ "$k" = 1 ] || [ "$k" = - ] || tail -5 $tmp/chk.log
rm -r $tmp
