#!/bin/bash
# refactor.sh "MODES" "IDS": runs checks on a copy of /repo whose code was rewritten without changing what it does.
here=$(cd "$(dirname "$0")/../.." && pwd)
. "$here/harness/env.sh"
for m in $1; do
wt=$(mktemp -d /tmp/refac.XXXXXX)
cp -a /repo "$wt/repo"
printf '{"Replace":{"/repo/verifmc/refactor/main.go":"%s/tools/refactor/main.go"}}' "$here/harness" > "$wt/tool.json"
(cd /repo && go build -buildvcs=false -overlay "$wt/tool.json" -o "$wt/refactor" ./verifmc/refactor) || exit 2
"$wt/refactor" -repo "$wt/repo" -mode $m
(cd "$wt/repo" && go build ./... 2>&1 | head -20)
for id in $2; do
VERIF_REPO=$wt/repo VERIF_SEED=1 "$here/check.sh" $id > $wt/out 2>&1; rc=$?
echo "$m $id rc=$rc $(grep -c 'build.sh: instr' $wt/out)"; [ $rc != 0 ] && tail -2 $wt/out | cut -c1-300
done
rm -rf "$wt"
done
