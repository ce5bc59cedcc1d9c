#!/bin/bash
# run1.sh UNIT [--probe]
mkdir -p /tmp/u
/verif/extract/target/debug/vextract /verif/units/$1.rs /tmp/u/$1.rs /tmp/u/$1.json --repo ${REPO:-/repo} $2 && time verus /tmp/u/$1.rs --rlimit 30 --num-threads 8 --triggers-mode silent 2>&1 | grep -v "^note: \(auto\|  trig\)\|^warning\|^note: this" | head -${N:-80}
