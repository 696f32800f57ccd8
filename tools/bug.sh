#!/bin/bash
# bug.sh ID [nocheck]: is seeded/ID a planted bug that counts, and does its property's check catch it?
# Works on copies of /repo only.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; b=$V/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$b/meta.json'))['property'])")
d=$(mktemp -d /tmp/bug.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/r"; cd "$d/r" || exit 2
out="$id [$prop]"
(bash "$b/demo.sh") >"$d/demo0" 2>&1; r=$?
[ $r = 0 ] || { out="$out DEMO-FAILS-CLEAN($r)"; tail -20 "$d/demo0"; }
git apply "$b/patch.diff" || { echo "$out NO-APPLY"; exit 1; }
(bash "$b/demo.sh") >"$d/demo1" 2>&1; r=$?
if [ $r = 0 ]; then out="$out DEMO-PASSES-PATCHED"; fi
[ -n "$SHOW" ] && grep -v '^$' "$d/demo1" | head -${SHOW}
grep -q 'build failed\|setup failed' "$d/demo1" && { out="$out DEMO-BUILD"; head -20 "$d/demo1"; }
[ "$2" = nocheck ] && { echo "$out ok"; exit 0; }
VERIF_REPO=$d/r VERIF_SEED=1 bash "$V/check.sh" "$prop" quick >"$d/chk" 2>&1; r=$?
if [ $r = 1 ] && grep -q "^VIOLATION property=$prop " "$d/chk"; then out="$out CAUGHT"; grep -h 'violat\|detail' "$d/chk" | head -3 | cut -c1-300
else out="$out MISSED($r)"; tail -3 "$d/chk"; fi
echo "$out"
