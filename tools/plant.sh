#!/bin/bash
# plant.sh NAME PROPERTY "needs" "breaks": the edit in /repo's working tree becomes seeded/NAME/patch.diff (demo.c beside it)
D=/verif/seeded/$1; mkdir -p $D; cd /repo && git diff > $D/patch.diff && git checkout -q -- .
[ -s $D/patch.diff ] || { echo empty patch; exit 1; }
cp -n /verif/tools/demo.sh.tmpl $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
