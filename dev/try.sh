#!/bin/bash
# dev/try.sh BUG [CHECK...]: run the property's check (or the named ones) against a planted bug, in a scratch copy of the repository
cd /verif; b=$1; shift; R=${PLANT_REPO:-/tmp/w/repo4}
[ -n "$(git -C $R status --porcelain)" ] && { echo dirty; exit 9; }
p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
git -C $R apply /verif/seeded/$b/patch.diff || exit 9
for c in ${@:-$p}; do
  s=$(date +%s); KERI_REPO=$R timeout 900 ./check $c quick >/tmp/try.$b.$c 2>&1; rc=$?
  echo "$b $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.$b.$c | cut -c1-150)"
done
git -C $R checkout -- .
