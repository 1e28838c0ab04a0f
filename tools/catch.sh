#!/bin/bash
# catch.sh DIR [PID...]: run checks on a scratch copy of /repo with DIR/patch.diff applied.
D=$(realpath "$1"); ID=$(basename "$D"); shift
P=${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$D/meta.json")}
W=/tmp/w/c-$ID; rm -rf "/tmp/w/c-$ID"; mkdir -p "$W"
(cd /repo && git archive HEAD) | tar x -C "$W"
git -C "$W" init -q; git -C "$W" apply "$D/patch.diff" || exit 3
for p in $P; do
  DWSA_REPO=$W DWSA_EVIDENCE=$W/ev python3 /verif/check.py "$p" > "$W/out" 2>&1; rc=$?
  echo "CATCH $ID $p rc=$rc $(grep -m1 "^[a-z].*: \[" "$W/out" | cut -c1-260) $(tail -1 "$W/out")"
done
rm -rf "/tmp/w/c-$ID"
