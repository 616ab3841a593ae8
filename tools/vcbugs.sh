#!/bin/bash
# run the deductive part only against the planted bugs (all, or those named)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || continue
  python3-vt vc/run.py $p > /tmp/vcbugs.out 2>&1
  git -C /repo checkout -- .
  n=$(grep -c FAILED /tmp/vcbugs.out); u=$(grep -c ^unsupported /tmp/vcbugs.out)
  echo "$d $p failed=$n unsupported=$u $(grep -m2 FAILED /tmp/vcbugs.out | tr '\n' ';' | cut -c1-160) $(grep -m1 ^unsupported /tmp/vcbugs.out | cut -c1-200)"
done
