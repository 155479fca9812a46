#!/bin/bash
# build.sh OUT_DIR MODE PKG...: builds the harness programs PKG (directories of
# harness/src) against /repo's current working tree into OUT_DIR.
# MODE: map (owned map order), sync (also controlled goroutines), race (also the race detector), plain.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
. "$here/programs.sh"
out=$1; mode=$2; shift 2
work=$(mktemp -d /tmp/mcbuild.XXXXXX)
trap 'rm -rf "$work"' EXIT
cd "$VERIF_REPO" || exit 2
# the instrumenter itself is built against the repository's dependencies
printf '{"Replace":{"%s/verifmc/instrument/main.go":"%s/tools/instrument/main.go"}}' "$VERIF_REPO" "$here" > "$work/tool.json"
go build -buildvcs=false -overlay "$work/tool.json" -o "$work/instrument" ./verifmc/instrument || exit 2
mkdir -p "$work/src"
flags=()
[ "$mode" = sync -o "$mode" = race ] && flags+=(-sync)
[ "$mode" = plain ] && flags+=(-plain)
"$work/instrument" -repo "$VERIF_REPO" -out "$work/src" -harness "$here/src" -overlay "$work/overlay.json" "${flags[@]}" 2>"$work/err" || { cat "$work/err" >&2; "$work/instrument" -repo "$VERIF_REPO" -out "$work/src" -harness "$here/src" -overlay "$work/overlay.json" -plain || exit 2; }
bflags=()
base=sigs.k8s.io/controller-tools/verifmc
[ "$mode" = race ] && { bflags+=(-race "-gcflags=$base/vsync=-race=false" "-gcflags=$base/rt=-race=false"); export CGO_ENABLED=1; }
for p in "$@"; do
  if ! go build -buildvcs=false "${bflags[@]}" -overlay "$work/overlay.json" -o "$out/$p" "./verifmc/$p" 2>"$work/err"; then
    if [ "$mode" != plain ]; then
      # an instrumented source that does not compile must not silence the check
      "$work/instrument" -repo "$VERIF_REPO" -out "$work/src" -harness "$here/src" -overlay "$work/plain.json" -plain 2>/dev/null
      go build -buildvcs=false "${bflags[@]}" -overlay "$work/plain.json" -o "$out/$p" "./verifmc/$p" || exit 2
      echo "build.sh: instrumented build failed, using the plain one" >&2; cat "$work/err" >&2
    else
      cat "$work/err" >&2; exit 2
    fi
  fi
done
# the commands themselves, as they are
for p in "$@"; do
  for b in ${COMMANDS_OF[$p]:-}; do
    go build -buildvcs=false -o "$out/$b" "./cmd/$b" || exit 2
  done
done
for p in "$@"; do
  for b in ${OWNED_COMMANDS_OF[$p]:-}; do
    go build -buildvcs=false -overlay "$work/overlay.json" -o "$out/$b" "./cmd/$b" 2>/dev/null || go build -buildvcs=false -o "$out/$b" "./cmd/$b" || exit 2
  done
done
