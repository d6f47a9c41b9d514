#!/bin/bash
# usage: seedmany.sh NAME...: confirms the bugs one after another; log in /tmp/seedlog/NAME
mkdir -p /tmp/seedlog
for n in "$@"; do
  python3 "$(dirname "$0")/seed.py" "$n" all >/tmp/seedlog/$n 2>&1
  own=${n:0:3}
  k=kept
  if grep -q "NOT KEPT\|matches\|no match" /tmp/seedlog/$n; then k="not kept"; fi
  if grep -q "VIOLATION $own" /tmp/seedlog/$n; then r="caught"
  else r="MISSED"; fi
  echo "$n $k $r $(grep -c VIOLATION /tmp/seedlog/$n) $(tail -1 /tmp/seedlog/$n | cut -c1-60)"
done
