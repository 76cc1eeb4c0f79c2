#!/bin/bash
# usage: tools/bug.sh SEEDED_ID [--fast]   (development aid: runs tests, demo and check with a planted bug,
# in a private mount namespace in which a patched copy of the repository stands at /repo)
id=$1; fast=$2
d=/verif/seeded/$id
w=$(mktemp -d /tmp/bug-XXXXXX)
cp -a /repo $w/repo && mkdir $w/ev
if ! git -C $w/repo apply $d/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $w/repo /repo; mount --bind $w/ev /verif/evidence
if [ -z '$fast' ]; then
 bash /opt/vp/test.sh $w/out.json >$w/test.log 2>&1
 python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$w/out.json'))['passed'])
print('$id TESTS', 'ok' if not b-o else sorted(b-o)[:5])\"
fi
mkdir $w/demo; cp -r $d/. $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
(cd /repo && timeout 300 bash $w/demo/demo.sh >$w/demo.log 2>&1); echo \"$id DEMO-with-bug rc=\$?\"
cd /verif; VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh $prop > $w/check.log 2>&1; rc=\$?
echo \"$id CHECK $prop rc=\$rc \$(grep -h -E 'VIOLATION|CHECK-ERROR|^OK|Violation' $w/check.log | tail -2 | cut -c1-300)\"
"
(cd /repo && timeout 300 bash $d/demo.sh >$w/demo0.log 2>&1); rc0=$?
echo "$id DEMO-clean rc=$rc0"
[ $rc0 -ne 0 ] && tail -5 $w/demo0.log
rm -rf "$w"
