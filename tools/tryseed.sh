#!/bin/bash
# tryseed.sh ID.. : demo on the clean and on the patched tree (a worktree), then the check against the patched tree
rm -rf /tmp/sr2; git -C /repo worktree prune; git -C /repo worktree add -q --detach /tmp/sr2 HEAD
for i in "$@"; do
  S=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /tmp/sr2; git checkout -q -- .
  [ -n "$NODEMO" ] || { $S/demo.sh > /tmp/try.o 2>&1; A=$?; }
  git apply $S/patch.diff || { echo "$i: patch does not apply"; continue; }
  [ -n "$NODEMO" ] || { $S/demo.sh > /tmp/try.p 2>&1; B=$?; }
  (cd /verif; VERIF_REPO=/tmp/sr2 VERIF_OUT=/tmp/try_out VERIF_EVID=/tmp/try_ev python3 check.py $P > /tmp/try.c 2>&1); C=$?
  echo "$i [$P] demo clean=$A patched=$B check=$C $(grep VIOLATION /tmp/try.c)"
  [ "$A" = 0 ] || tail -5 /tmp/try.o
  tail -2 /tmp/try.p; grep -v "^$" /tmp/try.c | head -${N:-6} | cut -c1-300
done
cd /; git -C /repo worktree remove --force /tmp/sr2
