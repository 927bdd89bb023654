#!/bin/bash
# tools/tryall.sh [ID...]: runs each planted bug against its property's check (on a copy of /repo) and says which are caught
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  out=$(tools/try.sh $PWD/seeded/$s/patch.diff $p 2>&1);
  echo "$s $out" | head -3 | cut -c1-200
done
