#!/bin/bash
# ptest.sh <id>...: runs demo and check of planted bugs against a patched copy of the repository (the repository itself is not touched)
for i in "$@"; do
  W=/tmp/pt_$i; rm -rf "$W"; cp -a /repo "$W"; D=/verif/seeded/$i
  (cd $W && git apply $D/patch.diff && bash $D/demo.sh >/tmp/pt_$i.demo 2>&1; echo "$i: demo exit $? ($(grep -m1 failed /tmp/pt_$i.demo))")
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd /verif && HZ_REPO=$W python3 check.py $P > /tmp/pt_$i.log 2>&1; echo "$i: check $P exit $? $(grep -c VIOLATION /tmp/pt_$i.log) violations"; grep -m1 -B1 VIOLATION /tmp/pt_$i.log | head -1 | cut -c1-200)
  rm -rf "$W"
done
