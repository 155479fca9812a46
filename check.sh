#!/bin/bash
# check.sh ID [--thorough] [--replay FILE]: decides property ID for /repo's working tree.
# Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
. "$here/harness/env.sh"
. "$here/harness/programs.sh"
id=$1; shift
if [ "${1:-}" = --thorough ]; then
  export VERIF_TIER=thorough; shift
fi
if [ "${1:-}" = --replay ]; then
  MC_WANT=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["key"])' "$2"); export MC_WANT
fi
program_of "$id" || { echo "unknown property $id" >&2; exit 2; }
bin=$(mktemp -d "/tmp/mcbin.$id.XXXXXX")
trap 'rm -rf "$bin"' EXIT
"$here/harness/build.sh" "$bin" "$mode" "$prog" || { echo "check.sh: the harness does not build against this tree" >&2; exit 2; }
"$bin/$prog" "$id"
