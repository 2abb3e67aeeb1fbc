#!/bin/bash
# tryseed.sh <id> [check...]: demo and stable tests without/with the patch,
# then the checks (default: that of the bug's property).
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git apply "$d/patch.diff" || exit 2
bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1; echo "tests rc=$? $(tail -1 /tmp/seedtest.log)"
bash "$d/demo.sh" > /tmp/seeddemo.log 2>&1; echo "demo with patch rc=$?"
cd /verif
for c in ${@:-$prop}; do
  VERIF_SEED=1 VERIF_TIER=quick ./run $c > /tmp/seedcheck.log 2>&1; echo "check $c rc=$? $(grep -a VIOLATION /tmp/seedcheck.log)"
done
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || echo build failed
cd /repo && bash "$d/demo.sh" > /tmp/seeddemo0.log 2>&1; echo "demo without patch rc=$?"
