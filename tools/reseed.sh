#!/bin/bash
# reseed.sh ID...: confirm planted bugs again (demo with/without the patch, answer of the check)
[ -d /tmp/seed ] || git clone -q /repo /tmp/seed
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /tmp/seed && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD
  bash $d/demo.sh >/tmp/seed.out 2>&1 || { echo "$id: DEMO FAILS WITHOUT THE PATCH"; tail -5 /tmp/seed.out; continue; }
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >/tmp/seed.out 2>&1 && { echo "$id: DEMO PASSES WITH THE PATCH"; git checkout -q -- .; continue; }
  cd /verif
  VERIF_REPO=/tmp/seed VERIF_EVID=/tmp/seedev /opt/venv/bin/python check.py $prop quick > /tmp/seed.chk 2>&1
  echo "$id: check $prop exit $? $(grep -c '^VIOLATION' /tmp/seed.chk) $(tail -n +1 /tmp/seed.chk | grep -m1 'quick:')"
  git -C /tmp/seed checkout -q -- .
done
