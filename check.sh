#!/bin/bash
# usage: check.sh ID [-replay FILE]     (VERIF_TIER=quick|thorough)
# Builds the explorer against /repo's current working tree and runs one check.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
cp "$VERIF_DIR/mc/go.mod" "$VERIF_DIR/mc/go.sum" "$T/" || exit 2
# VERIF_REPO: development aid, explores a scratch copy instead of /repo
REPO="${VERIF_REPO:-/repo}"
sed -i "s#=> /repo\$#=> $REPO#" "$T/go.mod"

plain_build() {
	cd "$VERIF_DIR/mc" || exit 2
	go build -trimpath=false -modfile="$T/go.mod" -o "$T/mc" . >"$T/build.log" 2>&1 || { cat "$T/build.log" >&2; exit 2; }
}

# C21: scheduling points before every statement, and the race detector
sched_build() {
	(cd "$VERIF_DIR/tools/instr" && go build -o "$T/instr" .) || exit 2
	for mode in "" -plain; do
		mkdir -p "$T/ov$mode"
		"$T/instr" $mode "$REPO" "$T/ov$mode" "$VERIF_DIR/tools/instr/shim/sync.go.txt" "$VERIF_DIR/tools/instr/shim/point.go.txt" >"$T/instr.log" 2>&1 || continue
		cd "$VERIF_DIR/mc" || exit 2
		CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -tags sched -trimpath=false -modfile="$T/go.mod" -overlay "$T/ov$mode/overlay.json" -o "$T/mc" . >"$T/build.log" 2>&1 && { export VERIF_SCHED="points$mode"; return 0; }
	done
	cat "$T/build.log" >&2
	exit 2
}

case "$1" in
-build) plain_build; sched_build; exit 0 ;;
C21) sched_build ;;
*) plain_build ;;
esac
"$T/mc" "$@"
