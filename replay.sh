#!/bin/bash
# replay.sh FILE: run a counterexample again on /repo's current tree, with a trace.
F=$(readlink -f "$1")
cd "$(dirname "$0")" || exit 3
V=$PWD
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=1
mkdir -p "$V/.work"
W=$(mktemp -d "$V/.work/replay.XXXXXX") || exit 3
trap 'rm -rf -- "$W"' EXIT
export TMPDIR=$W
cd "$V/mc" || exit 3
go build -o "$W/vrewrite" ./cmd/vrewrite || exit 3
"$W/vrewrite" -repo "${VERIF_REPO:-/repo}" -out "$W/gen" -virtual "$V/mc/modbus" -overlay "$W/overlay.json" || exit 3
if grep -q '"race_build": *true' "$F"; then
	go build -race -overlay "$W/overlay.json" -gcflags='verifmc/cmd/...=-race=false -l' \
		-gcflags='verifmc/vrt=-race=false -l' -gcflags='verifmc/shim/...=-race=false -l' -gcflags=verifmc/shim/atomic=-l -o "$W/mc" ./cmd/mc || exit 3
else
	go build -overlay "$W/overlay.json" -o "$W/mc" ./cmd/mc || exit 3
fi
"$W/mc" replay "$F"
