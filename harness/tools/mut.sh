#!/bin/bash
# mut.sh IDS FILE OLD NEW: runs checks IDS on a scratch copy in which OLD became NEW once in FILE.
here=$(cd "$(dirname "$0")/../.." && pwd)
wt=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$wt"' EXIT
cp -a /repo "$wt/repo"
python3 - "$wt/repo/$2" "$3" "$4" <<'P' || exit 1
import sys
s=open(sys.argv[1]).read(); assert s.count(sys.argv[2])>=1, 'pattern not found'
open(sys.argv[1],'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
for id in $1; do
VERIF_REPO=$wt/repo VERIF_SEED=1 "$here/check.sh" $id > $wt/out 2>&1; rc=$?
echo "$id rc=$rc"; [ -n "$SHOW" ] && head -c ${SHOW} $wt/out; tail -2 $wt/out | cut -c1-300
done
