#!/bin/sh
# trybug.sh ID...: applies each seeded bug to a copy of /repo and runs its property's check against the copy
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/trybug.$i.repo
  rm -rf "$w"; cp -a /repo "$w"
  (cd "$w" && git apply /verif/seeded/$i/patch.diff) || { echo "$i does not apply"; continue; }
  mkdir -p /tmp/trybug.ev; PYDV_FIRST=1 PYDV_EVID=/tmp/trybug.ev PYDV_REPO=$w PYTHONPATH=$w:/verif python3-vt -m pydv.check $p > /tmp/trybug.$i.log 2>&1
  echo "$i $p exit=$? $(grep -c VIOLATION /tmp/trybug.$i.log) violations: $(grep -m1 VIOLATION /tmp/trybug.$i.log) $(grep -m1 'obligation "' /tmp/trybug.$i.log | cut -c1-200)"
  rm -rf "$w"
done
