#!/bin/bash
# ./check.sh ID            decide property ID (VERIF_SEED, VERIF_TIER)
# ./check.sh replay FILE   run one replay file
# ./check.sh build         build only
# Builds the harness and the commands from /repo's working tree, offline.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-buildvcs=false GOWORK=off
export GOCACHE=${VERIF_GOCACHE:-$root/.cache/go-build}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM HUP
chmod 711 "$work"
mkdir -p "$work/bin" "$work/tmp" "$GOCACHE"
export TMPDIR=$work/tmp
# If the hook in /repo does not compile with the present code, do without it.
tags=verif
(cd "$root/harness" && CGO_ENABLED=0 go build -mod=readonly -tags verif -o "$work/bin/vh" .) ||
{ tags=; echo "building the harness without the hook" >&2; (cd "$root/harness" && CGO_ENABLED=0 go build -mod=readonly -o "$work/bin/vh" .); } || { echo "harness build failed" >&2; exit 3; }
(cd /repo && CGO_ENABLED=0 go build -mod=readonly -o "$work/bin/" ./cmd/...) || { echo "build of /repo failed" >&2; exit 3; }
case "${1:-}" in
C14|race) (cd "$root/harness" && CGO_ENABLED=1 go build -race -mod=readonly -tags "$tags" -o "$work/bin/vh-race" .) || { echo "race build failed" >&2; exit 3; } ;;
esac
export VH_BIN=$work/bin VH_ROOT=$root
if [ "${1:-}" = build ]; then
  exit 0
elif [ "${1:-}" = replay ]; then
  "$work/bin/vh" replay "$2"
else
  "$work/bin/vh" check "${1:?usage: check.sh ID}"
fi
