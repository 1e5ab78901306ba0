#!/bin/bash
# run.sh <property> [gosym flags]      decide one property with the symbolic executor
# run.sh replay <file>                 replay a counterexample on the compiled code
# run.sh build                         build the executor (setup)
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
work="$(mktemp -d /tmp/gosym.XXXXXX)" || exit 3
trap 'rm -rf "$work"' EXIT
(cd "$here/gosym" && go build -o "$work/gosym" .) || { echo "cannot build gosym" >&2; exit 3; }
case "$1" in
build) echo built; exit 0 ;;
replay) "$work/gosym" -verif "$here" -replay "$2"; exit $? ;;
esac
prop="$1"; shift
"$work/gosym" -verif "$here" -prop "$prop" "$@"
exit $?
