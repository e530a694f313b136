#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < demo.py ; the change is the uncommitted diff of /tmp/seed (a clone of /repo)
set -e
id=$1 prop=$2 needs=$3 breaks=$4
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seed diff > $d/patch.diff
test -s $d/patch.diff
cp /verif/tools/seedlib/demo.sh /verif/tools/seedlib/lib.py $d/
chmod +x $d/demo.sh
cat > $d/demo.py
if grep -q 'native\|everything' $d/demo.py; then mkdir -p $d/inc; cp -r /verif/cpp/include/. $d/inc/; else rm -rf $d/inc; fi
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
# confirm: demo fails with the change, passes without it, and the check's answer
cd /tmp/seed
if bash $d/demo.sh >/tmp/seed.out 2>&1; then echo "$id: DEMO PASSES WITH THE PATCH"; cat /tmp/seed.out; exit 1; fi
tail -2 /tmp/seed.out
git checkout -q -- .
if ! bash $d/demo.sh >/tmp/seed.out 2>&1; then echo "$id: DEMO FAILS WITHOUT THE PATCH"; tail -5 /tmp/seed.out; exit 1; fi
git apply $d/patch.diff
cd /verif
rc=0; VERIF_REPO=/tmp/seed VERIF_EVID=/tmp/seedev /opt/venv/bin/python check.py $prop quick > /tmp/seed.chk 2>&1 || rc=$?; echo "$id: check $prop exit $rc"
grep -m3 'violated' /tmp/seed.chk || tail -4 /tmp/seed.chk
git -C /tmp/seed checkout -q -- .
