#!/bin/bash
# tryseed.sh ID [CHECK...]: demo on the clean tree, then tests, demo and checks with the patch applied.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${@:-$prop}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
cd /repo
bash $d/demo.sh > /tmp/demo.clean 2>&1; a=$?
git -C /repo apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
t=$(/tmp/t.sh 2>&1 | tail -1)
bash $d/demo.sh > /tmp/demo.patched 2>&1; b=$?
echo "$id property=$prop demo clean=$a patched=$b tests: $t"
tail -3 /tmp/demo.patched | cut -c1-300
for c in $checks; do
  s=$(date +%s); (cd /verif && VERIF_SEED=1 ./check.sh $c > /tmp/check.$c 2>&1); r=$?
  echo "check $c exit=$r $(( $(date +%s) - s )) s: $(grep VIOLATION /tmp/check.$c | head -2 | tr '\n' ' ' | cut -c1-300)"
done
git -C /repo checkout -q -- .
