#!/bin/bash
# tools/mkbug.sh ID PROPERTY "needs" "what": makes /verif/seeded/ID from the present difference of /repo and demo.F90 on stdin, then undoes the difference.
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
cp /verif/tools/demo/dm.F90 /verif/tools/demo/demo.sh $S/
cat > $S/demo.F90
P="$2" N="$3" W="$4" python3 -c "import json,os;e=os.environ;json.dump(dict(property=e['P'],needs=e['N'],what_it_breaks=e['W']),open('$S/meta.json','w'),indent=1)"
[ -s $S/patch.diff ] || echo "EMPTY PATCH"
