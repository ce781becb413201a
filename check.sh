#!/bin/bash
# check.sh <property> [quick|thorough] [extra harness flags]
# Rewrites /repo's working tree onto the controlled runtime, builds the
# explorer with it in a scratch directory and explores one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift || true
repo="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d /tmp/vcheck.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
( cd "$here/tools/instr" && go build -o "$scratch/instr" . ) || exit 3
"$scratch/instr" -src "$repo" -rt "$here/rt/vrt" -out "$scratch/m" || exit 3
mkdir -p "$scratch/m/harness" && cp "$here"/harness/*.go "$scratch/m/harness/" || exit 3
( cd "$scratch/m" && go build -o "$scratch/h" ./harness ) || exit 3
if [ "$prop" = build ]; then cp "$scratch/h" "$tier"; exit 0; fi
"$scratch/h" -prop "$prop" -tier "$tier" -evidence "$here/evidence/$prop.json" \
   -replays "$here/replays" -known "$here/KNOWN_FINDINGS.txt" "$@"
