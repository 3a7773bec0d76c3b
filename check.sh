#!/bin/bash
# check.sh PROPERTY: decides one property of the working tree in /repo.
dir="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
if [ ! -x "$dir/bin/tfcheck" ] || [ -n "$(find "$dir/tfcheck" -name '*.go' -newer "$dir/bin/tfcheck" -print -quit)" ]; then
  "$dir/setup.sh" >&2 || exit 2
fi
cd "$dir"
exec "$dir/bin/tfcheck" -repo /repo -verif "$dir" -prop "$1"
