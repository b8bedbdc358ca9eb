#!/bin/bash
# conform.sh: binds the virtual runtime to the Go runtime.  Runs the programs of
# conform/ natively and, translated by the same translator as /repo, on the
# virtual runtime under every schedule with at most one preemption; their
# outcomes have to agree.  Exit 0: they do.
cd "$(dirname "$0")" || exit 3
V=$PWD
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p "$V/.work"
W=$(mktemp -d "$V/.work/conform.XXXXXX") || exit 3
trap 'rm -rf -- "$W"' EXIT
export TMPDIR=$W
cd "$V/mc" || exit 3
go build -o "$W/vrewrite" ./cmd/vrewrite || exit 3
"$W/vrewrite" -repo "$V/conform" -out "$W/gen" -virtual "$V/mc/modbus" -overlay "$W/overlay.json" || exit 3
(cd "$V/conform" && go run ./run) >"$W/native.json" || exit 3
go build -overlay "$W/overlay.json" -o "$W/vconform" ./cmd/vconform || exit 3
"$W/vconform" "$W/native.json" || exit
echo "race build: no report for the programs above, a report for every racy one"
go build -race -overlay "$W/overlay.json" -gcflags='verifmc/cmd/...=-race=false -l' \
	-gcflags='verifmc/vrt=-race=false -l' -gcflags='verifmc/shim/...=-race=false -l' -gcflags=verifmc/shim/atomic=-l \
	-o "$W/vconform" ./cmd/vconform || exit 3
"$W/vconform" "$W/native.json" 2>"$W/reports" | grep '^racy\|deviations$\|choices'
exit "${PIPESTATUS[0]}"
