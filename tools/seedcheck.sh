#!/bin/bash
# seedcheck.sh [ID...]: run the owning property's check against planted bugs (applied to /repo, undone afterwards).
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t=$(date +%s)
  out=$(/verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep VIOLATION | head -1)"
done
