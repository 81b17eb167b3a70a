#!/bin/bash
# catch.sh [ids...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded seeded_fth | grep -v :)}; do
  f=seeded; [ -d seeded/$d ] || f=seeded_fth
  p=$(python3 -c "import json;print(json.load(open('$f/$d/meta.json'))['property'])")
  git -C /repo apply /verif/$f/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  s=$(date +%s); timeout 900 python3 tools/run.py $p > /tmp/catch.out 2> /tmp/catch.err; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/catch.out) violations, $(( $(date +%s) - s )) s; $(grep -m1 'accepted' /tmp/catch.err | sed 's/.*accepted/accepted/')"
done
