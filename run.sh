#!/bin/bash
# usage: run.sh ID            runs the check of one property against /repo
#        run.sh replay FILE   re-runs one saved case
# Builds the harness from /repo's working tree into a private directory.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1; fi
OUT=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'rm -rf "$OUT"' EXIT
cd "$VERIF/harness" || exit 2
# -mod=mod may rewrite go.mod/go.sum: work with private copies
cp go.mod "$OUT/go.mod" && cp go.sum "$OUT/go.sum" || exit 2
go build -trimpath -modfile="$OUT/go.mod" -o "$OUT/vh" . || { echo "harness does not build" >&2; exit 2; }
if [ "$1" = setup ]; then go build -race -trimpath -modfile="$OUT/go.mod" -o "$OUT/vh-race" .; exit $?; fi
if [ "$1" = replay ]; then
  go build -race -trimpath -modfile="$OUT/go.mod" -o "$OUT/vh-race" . || exit 2
  "$OUT/vh" replay "$2"; exit $?
fi
if "$OUT/vh" needs-race "$1"; then
  go build -race -trimpath -modfile="$OUT/go.mod" -o "$OUT/vh-race" . || { echo "harness does not build with -race" >&2; exit 2; }
fi
TMPDIR="$OUT" "$OUT/vh" check "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "$VERIF"
