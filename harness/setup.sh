#!/bin/bash
# setup.sh: warms the build cache (instrumented and plain builds of every harness program).
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/mcsetup.XXXXXX)
trap 'rm -rf "$out"' EXIT
. "$here/programs.sh"
"$here/build.sh" "$out" map "${MAP_PROGRAMS[@]}" || exit 1
if [ ${#SYNC_PROGRAMS[@]} -gt 0 ]; then "$here/build.sh" "$out" sync "${SYNC_PROGRAMS[@]}" || exit 1; fi
if [ ${#RACE_PROGRAMS[@]} -gt 0 ]; then "$here/build.sh" "$out" race "${RACE_PROGRAMS[@]}" || exit 1; fi
echo setup done
