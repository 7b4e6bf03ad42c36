#!/bin/bash
# seeded.sh [NAME...]: runs the property's quick check against each planted bug
# (in a scratch copy of /repo's sources) and records what caught it.
cd "$(dirname "$0")/.."
names=${*:-$(ls seeded)}
for n in $names; do
  t=$(mktemp -d /tmp/seedXXXX)
  cp -a /repo/include /repo/src "$t"/
  (cd "$t" && git init -q . 2>/dev/null; git -C "$t" apply "$PWD/../verif/seeded/$n/patch.diff" 2>/dev/null || (cd "$t" && patch -s -p1 < /verif/seeded/$n/patch.diff)) || echo "cannot apply $n"
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    o=$(F2C_REPO=$t F2C_BUILD=/tmp/seedbuild VERIF_EVIDENCE=/tmp/seedbuild python3 check.py $c 2>&1); rc=$?
    echo "$n $c rc=$rc $(echo "$o" | grep -m1 -E 'VIOLATION|CHECK-ERROR' | cut -c1-150)"
    python3 - "$n" "$c" "$rc" <<'P'
import json,sys,os
f='tools/seeded_results.json'; r=json.load(open(f)) if os.path.exists(f) else {}
n,c,rc=sys.argv[1:]; l=[x for x in r.get(n,[]) if x.split()[0]!=c and x!='nothing']
if rc=='1': l.append(c)
r[n]=sorted(l) or ['nothing']; json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
  done
  rm -rf "$t"
done
