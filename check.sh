#!/bin/bash
# check.sh <property> [simulator options]: builds the simulator from /repo's
# working tree and runs the check of one property.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
unset GOROOT GOPATH GOENV LEDGER_FILE
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1; shift
case "$id" in C[0-9][0-9]) ;; *) echo "usage: check.sh C01..C18, C21 [options]" >&2; exit 2;; esac
dir=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/run"
opts=(); bin=(); pkg=.
case "$id" in C06|C15) opts+=(-race); bin+=(-race "$dir/sim.race");; C07) pkg=./registry; opts+=(-race); bin+=(-race "$dir/sim.race");; esac
(cd "$verif/tools/simbuild" && go run . -repo "$repo" -sim "$verif/sim" -out "$dir" -pkg "$pkg" "${opts[@]}") || { echo "check error: build failed" >&2; exit 3; }
"$dir/sim.bin" -check "$id" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$verif" -scratch "$dir/run" "${bin[@]}" "$@"
