#!/bin/bash
# tryseed.sh ID [nocheck]: on /repo: demo clean; apply; build+tests; demo fails; check catches; revert.
set -u
v="$(cd "$(dirname "$0")/.." && pwd)"; d="$v/seeded/$1"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
"$d/demo.sh"; echo "demo clean: $?"
git apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo "build fails"; tail -20 /tmp/seed-build.log; exit 2; }
bash /opt/vp/test.sh /tmp/seed-o.json 2>&1 | tail -1
"$d/demo.sh"; echo "demo patched: $?"
[ "${2:-}" = nocheck ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for i in ${2:-$p}; do
"$v/check.sh" $i > /tmp/seed-check.log 2>&1; echo "check $i: $?"; grep -m2 "#.*:" /tmp/seed-check.log | cut -c1-220
done
git -C /repo checkout -q -- .
