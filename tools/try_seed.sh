#!/bin/bash
# tools/try_seed.sh <seed id> [check ids...]: applies seeded/<id>/patch.diff to /repo, confirms tests and demo, runs checks, undoes it
id=$1; shift
dir=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 2; }
bash "$dir/demo.sh" >/tmp/demo.out 2>&1; echo "demo unchanged: $?"
git apply "$dir/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; tail -1 /tmp/seed.log
bash "$dir/demo.sh" >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.out
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
for c in ${@:-$prop}; do
  (cd /verif; timeout 900 ./check.sh $c quick >/tmp/check.out 2>&1; echo "check $c: $?"; grep -m1 -A6 '^case' /tmp/check.out | cut -c1-400; grep -c VIOLATION /tmp/check.out)
done
