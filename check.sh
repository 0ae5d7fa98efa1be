#!/bin/bash
# check.sh <property> <quick|thorough> [harness flags, e.g. -only N]
# Builds the monitor of the property against /repo's working tree and runs it.
# Exit 0: held on everything run; 1: VIOLATION line; anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 3
here=$PWD
id=${1:?property}; tier=${2:?tier}; shift 2
seed=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
work=$(mktemp -d "${TMPDIR:-/tmp}/jinverif.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
if [ "$id" = C20 ]; then
  flags="-race"
else
  flags="-cover -covermode=set -coverpkg=verif/harness,github.com/ecoshub/jin"
fi
if ! (cd harness && go build $flags -o "$work/harness" .) >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "ERROR of the check: the monitor does not build against /repo" >&2
  exit 3
fi
mkdir -p "$here/evidence" "$here/replays" "$work/pcov"
export GOCOVERDIR="$work/pcov"
"$work/harness" -prop "$id" -tier "$tier" -seed "$seed" -dir "$work" -src /repo \
  -known "$here/known-findings.txt" -replays "$here/replays" -out "$here/evidence/$id.json" "$@"
