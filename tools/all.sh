#!/bin/bash
# bash tools/all.sh [SEED] [IDs]    run the quick checks one after another
here=$(cd "$(dirname "$0")/.." && pwd)
seed=${1:-1}; shift
for c in ${*:-$(ls "$here/checks" | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')}; do
  VERIF_SEED=$seed timeout 900 bash "$here/run.sh" "$c" quick 2>&1 | grep -a "^OK\|^VIOLATION\|^error\|^harness\|^KNOWN" | cut -c1-300
done
