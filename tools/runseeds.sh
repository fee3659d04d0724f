#!/bin/bash
# runseeds.sh [id...]: runs the matching quick check on each planted bug (in a scratch copy, by TTL_REPO) and prints which are caught
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
   [ -f seeded/$d/patch.diff ] || continue
   rm -rf /tmp/plant/s; mkdir -p /tmp/plant/s; cp -r /repo/ttl /tmp/plant/s/
   (cd /tmp/plant/s && patch -s -p1 < /verif/seeded/$d/patch.diff) || { echo "$d PATCH"; continue; }
   p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
   t=$(date +%s)
   TTL_REPO=/tmp/plant/s python3 check.py $p quick > /tmp/plant/$d.log 2>&1; rc=$?
   echo "$d $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/plant/$d.log | sed 's/.*replay=[^ ]* //' | cut -c1-150)"
done
