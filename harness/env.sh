# The offline Go environment (as /opt/vp/env.sh, but independent of it).
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.24.13/bin ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
export GOPATH="${GOPATH:-$HOME/go}" GOMODCACHE="${GOMODCACHE:-$HOME/go/pkg/mod}" GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
unset GOROOT GOFLAGS
export VERIF_DIR="${VERIF_DIR:-/verif}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
