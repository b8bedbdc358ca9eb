#!/bin/bash
# check.sh ID [quick|thorough]: translate /repo's working tree, build the model
# checker on it and decide one property.  Exit 0 held, 1 violated, 3 no answer.
cd "$(dirname "$0")" || exit 3
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
[ "$TIER" = thorough ] || TIER=quick
REPO=${VERIF_REPO:-/repo}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=1
mkdir -p "$V/.work" "$V/evidence"
W=$(mktemp -d "$V/.work/$ID.XXXXXX") || exit 3
trap 'rm -rf -- "$W"' EXIT
trap 'exit 3' INT TERM
export TMPDIR=$W
cd "$V/mc" || exit 3
go build -o "$W/vrewrite" ./cmd/vrewrite || exit 3
"$W/vrewrite" -repo "$REPO" -out "$W/gen" -virtual "$V/mc/modbus" -overlay "$W/overlay.json" || exit 3
go build -overlay "$W/overlay.json" -o "$W/mc" ./cmd/mc || exit 3
RACE=none
if "$W/mc" needsrace -prop "$ID"; then
	go build -race -overlay "$W/overlay.json" -gcflags='verifmc/cmd/...=-race=false -l' \
		-gcflags='verifmc/vrt=-race=false -l' -gcflags='verifmc/shim/...=-race=false -l' -gcflags=verifmc/shim/atomic=-l \
		-o "$W/mcrace" ./cmd/mc || exit 3
	RACE=$W/mcrace
fi
SECS=250
[ "$TIER" = thorough ] && SECS=1500
mkdir -p "$W/run"
"$W/mc" check -prop "$ID" -tier "$TIER" -verif "$V" -racebin "$RACE" -work "$W/run" -secs "${VERIF_SECS:-$SECS}"
rc=$?
case $rc in 0 | 1) exit $rc ;; esac
exit 3
