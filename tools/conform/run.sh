#!/bin/bash
# Conformance of the rewriter and the controlled runtime with the real one.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"; v="$(dirname "$(dirname "$here")")"
d="$(mktemp -d /tmp/conform.XXXXXX)"; trap 'rm -rf "$d"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
( cd "$v/tools/instr" && go build -o "$d/instr" . )
mkdir -p "$d/s" "$d/n"
cp "$here"/native/main.go "$d/n/"
printf 'module native\n\ngo 1.16\n\nrequire prog v0.0.0\nreplace prog => %s\n' "$here/prog" > "$d/n/go.mod"
( cd "$d/n" && go build -o "$d/native" . )
"$d/instr" -src "$here/prog" -rt "$v/rt/vrt" -out "$d/m"
mkdir "$d/m/explore"; cp "$here"/explore/main.go "$v/harness/explore.go" "$d/m/explore/"
( cd "$d/m" && go build -o "$d/explore" ./explore )
"$d/native" "$d/s" > "$d/native.json" & "$d/explore" > "$d/explore.json"; wait
python3 "$here/compare.py" "$d/native.json" "$d/explore.json"
