#!/bin/bash
# check.sh ID [vprop flags...]: build the harness against /repo's working tree
# and run one property. Exit 0 held, 1 violation, 2 the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOPATH=${GOPATH:-/root/go}
bin=$(mktemp -d /tmp/vprop-bin-XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
race=
if [ "$id" = C20 ]; then # shared values: built with the race detector where it builds
  export GORACE="halt_on_error=1 exitcode=66"
  go build -race -o "$bin/vprop" . >&2 && race=1
fi
[ -n "$race" ] || go build -o "$bin/vprop" . >&2 || { echo "check error: the harness does not build against /repo" >&2; exit 2; }
"$bin/vprop" run -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$here" "$@"
