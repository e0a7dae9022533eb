#!/bin/bash
# run a check, short output
cd /verif
s=$(date +%s); bash run.sh "$@" > /tmp/t.$1.out 2>&1; rc=$?
grep -E "^(failing case|error|VIOLATION|OK|KNOWN|harness|case:|vp\.|[A-Za-z]*Error)" /tmp/t.$1.out | cut -c1-${W:-1200}
echo "rc=$rc $(($(date +%s)-s))s"
python3 - $1 <<'P'
import json,sys
try:
    c=json.load(open(f'evidence/{sys.argv[1]}.json'))['coverage']; print(c['evaluations'],c['distinct_nontrivial'],c['distribution'])
except Exception as e: print(e)
P
