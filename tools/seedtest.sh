#!/bin/bash
# bash tools/seedtest.sh SEEDED_DIR [demo|tests|check ...]   try one planted bug in a scratch copy of /repo
# (demo: demonstration on the clean and the patched copy; tests: stable tests; check: this property's quick check)
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(cd "$1" && pwd); id=$(basename "$d"); shift
what="${*:-demo tests check}"
w=/tmp/seed-$id
rm -rf "/tmp/seed-$id"
cp -a "${SEEDBASE:-/repo}" "$w" || exit 2
find "$w/src" -name __pycache__ -prune -exec rm -rf {} +
lay=$(mktemp -d /tmp/seedlay.XXXXXX)
cp -a "$d/." "$lay/"; rm -f "$lay"/*.diff "$lay"/*.patch "$lay"/meta.json
if [[ $what == *demo* ]]; then
  (cd "$w" && timeout 300 bash "$lay/demo.sh" >"/tmp/seed-$id.demo0" 2>&1); a=$?
fi
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
if [[ $what == *demo* ]]; then
  (cd "$w" && timeout 300 bash "$lay/demo.sh" >"/tmp/seed-$id.demo1" 2>&1); b=$?
  echo "$id demo: clean=$a patched=$b"
fi
if [[ $what == *tests* ]]; then
  sed "s#/repo#$w#g" /opt/vp/test.sh > "$lay/test.sh"
  PYTHONPATH="$w/src" bash "$lay/test.sh" "$lay/out.json" >"/tmp/seed-$id.tests" 2>&1
  echo "$id tests: $(python3 "$here/tools/baseline_cmp.py" "$lay/out.json")"
fi
if [[ $what == *check* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  VP_REPO="$w" VERIF_SEED=1 timeout 900 bash "$here/run.sh" "$p" quick >"/tmp/seed-$id.check" 2>&1; c=$?
  echo "$id check $p: exit $c $(grep -a ^VIOLATION "/tmp/seed-$id.check" | head -1) | $(grep -a '^error' "/tmp/seed-$id.check" | cut -c1-160 | head -1)"
fi
rm -rf "$lay" "/tmp/seed-$id"
