#!/bin/bash
# run.sh check PROPERTY [TIER] | replay FILE | build OUT
# Builds the simulator from /repo's working tree and this directory, in a
# scratch directory that is removed afterwards, and runs it.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
scratch="$(mktemp -d "${TMPDIR:-/tmp}/mondis-driver-XXXXXX")" || exit 3
trap 'rm -rf "$scratch"' EXIT
cp "$here/sim/go.mod" "$here/sim/go.sum" "$scratch/" || exit 3
( cd "$here/sim" && go build -modfile "$scratch/go.mod" -o "$scratch/driver" ./cmd/driver ) || exit 3
if [ "$1" = setup ]; then
  "$scratch/driver" build "$scratch/sim"
elif [ "$1" = check ]; then
  "$scratch/driver" check "$2" "${3:-${VERIF_TIER:-quick}}"
else
  "$scratch/driver" "$@"
fi
