#!/bin/bash
# tools/trybug.sh ID [notest]: tries the planted bug /verif/seeded/ID on a scratch copy of /repo, mounted over /repo in a namespace of its own.
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/trybug.$ID; mkdir -p "$W" && cp -a /repo "$W/repo"
mkdir -p $W/demo; cp $S/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
unshare -Urm bash -s <<X
mount --bind $W/repo /repo || exit 9
cd /repo
bash $W/demo/demo.sh < /dev/null > $W/demo0.log 2>&1; echo "$ID demo unchanged: \$? (want 0)"
git apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 9; }
bash /opt/vp/build.sh < /dev/null > $W/build.log 2>&1 || { echo "$ID BUILD FAILS"; tail -20 $W/build.log; }
bash $W/demo/demo.sh < /dev/null > $W/demo1.log 2>&1; echo "$ID demo patched: \$? (want nonzero)"; tail -2 $W/demo1.log
[ "$2" = notest ] || { bash /opt/vp/test.sh $W/t.json 2>&1 < /dev/null | tail -1; }
cd /verif; timeout 900 python3 check.py $P < /dev/null > $W/check.log 2>&1; echo "$ID check $P: \$? (want 1)"; tail -2 $W/check.log | cut -c1-300
X
rm -rf "/tmp/trybug.$ID/repo"
