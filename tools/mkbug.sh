#!/bin/bash
# mkbug.sh ID PROPERTY: takes the working tree change of /repo as a planted bug;
# stdin: meta "needs" on line 1, "what it breaks" on line 2. The demo's main.go
# must be in /verif/seeded/ID already.
id=$1; prop=$2
d=/verif/seeded/$id
read -r needs; read -r breaks
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
grep -q race $d/demo.sh 2>/dev/null || cp /verif/tools/demo/demo.sh $d/demo.sh
for f in fsx.go lib.go; do cp /verif/tools/demo/$f $d/$f; done
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /repo
bash /tmp/base.sh 2>&1 | tail -12
bash $d/demo.sh; echo "demo with the bug: $? (want nonzero)"
VERIF_DIR=/tmp/vd; mkdir -p /tmp/vd
for c in $prop; do VERIF_DIR=/tmp/vd bash /verif/check.sh $c | tail -4 | cut -c1-400; done
git -C /repo checkout -- .
bash $d/demo.sh; echo "demo without: $? (want 0)"
