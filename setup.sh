#!/bin/bash
# Builds the analyser from /verif/tfcheck (vendored, offline).
set -e
dir="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor
mkdir -p "$dir/bin" "$dir/evidence"
cd "$dir/tfcheck"
go build -o "$dir/bin/tfcheck.new" .
mv -f "$dir/bin/tfcheck.new" "$dir/bin/tfcheck"
