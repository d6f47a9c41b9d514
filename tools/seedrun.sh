#!/bin/bash
# usage: seedrun.sh NAME...: all analyses on the kept planted bugs
for n in "$@"; do
  d=/tmp/seedrun.$n; rm -rf "/tmp/seedrun.$n"; cp -a /repo $d
  git -C $d apply /verif/seeded/$n/patch.diff
  python3 /verif/tools/allprops.py $d > /tmp/seedrun.log.$n 2>&1
  own=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  if grep -q "VIOLATION $own " /tmp/seedrun.log.$n; then r=caught; else r=MISSED; fi
  echo "$n $own $r: $(grep VIOLATION /tmp/seedrun.log.$n | cut -d' ' -f2 | tr '\n' ' ') $(grep -c 'TIMEOUT\|UNSUPP' /tmp/seedrun.log.$n) $(tail -1 /tmp/seedrun.log.$n)"
  rm -rf "/tmp/seedrun.$n"
done
