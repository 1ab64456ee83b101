#!/bin/bash
# catch.sh seed...: applies each planted bug to /repo, runs its property's quick check, undoes it.
root=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$root/seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$root/seeded/$s/patch.diff" || { echo "$s APPLY FAIL"; continue; }
  out=$(cd "$root" && timeout 900 ./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  n=$(echo "$out" | grep -ac "^VIOLATION property=$p")
  r="missed"; [ $rc = 1 ] && [ "$n" -gt 0 ] && r="caught by $p"
  python3 - "$root/tools/seedresults.json" "$s" "$r" <<'P'
import json,sys,os
f,s,r=sys.argv[1:]
d=json.load(open(f)) if os.path.exists(f) else {}
d[s]=r; json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
  echo "$s rc=$rc $r"
done
