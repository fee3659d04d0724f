#!/bin/bash
# The engine on programs whose verdict is known.
H=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
R=${TTL_REPO:-/repo}
clang++-18 -std=gnu++17 -O0 -w -Xclang -disable-O0-optnone -fno-exceptions -fno-rtti -gline-tables-only -emit-llvm -c -I"$R" -I"$H/rt" -I"$H/harness" "$H/engine/selftest.cpp" -o "$D/a.bc" && opt-18 -passes=sroa,instsimplify "$D/a.bc" -o "$D/b.bc" || exit 1
rc=0
for e in $(grep -o 'VP_ENTRY([a-z_]*)' "$H/engine/selftest.cpp" | sed 's/VP_ENTRY(//;s/)//'); do
  mkdir "$D/$e"; "$H/engine/symex" "$D/b.bc" --out "$D/$e" --workers 2 --time 60 --steps 200000 $e || { echo "selftest: engine failed on $e"; rc=1; }
  v=$(python3 -c "import json,sys; d=json.load(open('$D/$e/stats.json')); print(('V' if d['nviol'] else 'H') + ('I' if d['incomplete'] else ''))")
  case $e:$v in bad_*:V|good_*:H) ;; *) echo "selftest: $e gave $v"; rc=1;; esac
done
[ $rc = 0 ] && echo "selftest ok"; exit $rc
