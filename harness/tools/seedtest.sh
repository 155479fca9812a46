#!/bin/bash
# seedtest.sh ID [nocheck|notest]: confirms a planted change in a scratch copy:
# it applies, builds, passes the stable tests, its demo tells the trees apart,
# and says whether the property's check catches it.
set -u
here=$(cd "$(dirname "$0")/../.." && pwd)
id=$1; opt=${2:-}
dir=$here/seeded/$id
wt=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$wt"' EXIT
cp -a /repo "$wt/repo"
prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$dir/meta.json")
mkdir "$wt/demo"; cp "$dir"/* "$wt/demo/"; rm -f "$wt/demo/"*.diff "$wt/demo/meta.json"
cd "$wt/repo"
. "$here/harness/env.sh"
timeout 300 bash "$wt/demo/demo.sh" >"$wt/d0" 2>&1; d0=$?
git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
timeout 300 bash "$wt/demo/demo.sh" >"$wt/d1" 2>&1; d1=$?
t=skipped
if [ "$opt" != notest ]; then
  go test -json ./... >"$wt/t.json" 2>/dev/null
  t=$(python3 - "$wt/t.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
fails=[]
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='fail': fails.append((e.get('Package','').split('/')[-1]+'/'+(e.get('Test') or '')))
print('pass' if not fails else 'FAIL '+','.join(fails[:6]))
PY
)
fi
c=skipped
if [ "$opt" != nocheck ]; then
  VERIF_REPO="$wt/repo" VERIF_SEED=1 VERIF_TIER=quick "$here/check.sh" "$prop" >"$wt/c" 2>&1; rc=$?
  c="rc=$rc $(grep -c '^VIOLATION property='"$prop" "$wt/c")"
  [ "$opt" = show ] && head -c 3000 "$wt/c"
fi
echo "$id [$prop]: demo clean=$d0 patched=$d1 tests=$t check=$c"
[ $d0 -ne 0 ] && tail -20 "$wt/d0"
[ $d1 -eq 0 ] && tail -5 "$wt/d1"
[ "$opt" = show ] && tail -5 "$wt/d1"
exit 0
