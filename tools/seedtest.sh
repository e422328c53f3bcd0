#!/bin/bash
# usage: tools/seedtest.sh SEED_ID [--notest]   (development helper, uses scratch copies of /repo)
# Confirms a seeded change: applies, imports, passes the stable tests, demo discriminates; then
# runs the check of its property against the changed copy.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); sd=$V/seeded/$id
W=/tmp/seedwt.$id; trap 'rm -rf "$W"' EXIT
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- .
cp -r "$sd" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d0.log" 2>&1); d0=$?
git -C "$W/repo" apply "$sd/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/d1.log" 2>&1); d1=$?
t=skipped
if [ "$2" != --notest ]; then
  sed "s#cd /repo#cd $W/repo#" /opt/vp/test.sh >"$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1
  t=$(python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print('pass' if b<=o else 'FAIL '+' '.join(sorted(b-o)[:5]))
P
)
fi
p=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
(cd "$V" && VERIF_REPO="$W/repo" bash check.sh "$p" >"$W/c.log" 2>&1); c=$?
echo "$id property=$p demo_clean=$d0 demo_patched=$d1 tests=$t check_exit=$c $(grep -m1 VIOLATION "$W/c.log" | cut -c1-150)"
[ $d0 = 0 ] || cat "$W/d0.log"
