#!/bin/bash
# tryseed.sh ID... : runs the property's quick check against each planted bug, on a scratch copy of /repo/src
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d); chmod 755 $d; cp -a /repo/src $d/src
  (cd $d && git apply --unsafe-paths /verif/seeded/$i/patch.diff) || { echo "$i does not apply"; continue; }
  t0=$(date +%s)
  out=$(VALORI_SRC=$d/src/valori VALORI_SRC_DIR=$d/src VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py ${P:-$p} 2>&1); rc=$?
  rm -rf "$d"
  echo "$i rc=$rc $(( $(date +%s) - t0 ))s: $(echo "$out" | grep -E 'VIOLATION|  UNDECIDED|FAILED|FAILING' | cut -c1-150 | head -4 | tr '\n' '|')"
done
