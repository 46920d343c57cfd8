#!/bin/bash
# check.sh ID            run the check of a property against /repo's working tree
# check.sh replay FILE   run a recorded case again
# check.sh build OUT     only build the harness
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
work=$(mktemp -d "${TMPDIR:-/tmp}/rlbuild.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
# Build from a copy, so that the go command can never touch committed files.
cp -r "$VERIF_DIR/harness" "$work/harness" || exit 2
cd "$work/harness" || exit 2
go build -o "$work/bin" . >&2 || { echo "check.sh: the harness does not build" >&2; exit 2; }
if [ "${1:-}" = build ]; then cp "$work/bin" "$2"; exit; fi
case "$*" in
*C15*) go build -race -o "$work/race" . >&2 || { echo "check.sh: the race harness does not build" >&2; exit 2; }
	export VERIF_RACE_BIN="$work/race" ;;
esac
cd "$VERIF_DIR" || exit 2
if [ "${1:-}" = replay ]; then "$work/bin" replay "$2"; else "$work/bin" drive "$1"; fi
