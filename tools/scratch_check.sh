#!/bin/bash
# scratch_check.sh <copy of the repository> <property> <tier> [flags]: the same monitor built
# against a scratch copy, evidence and replays under /tmp. Development tool, no check uses it.
set -u
repo=$(cd "$1" && pwd) || exit 3
id=$2; tier=$3; shift 3
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
work=$(mktemp -d /tmp/jinscratch.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$(dirname "$0")/../harness" "$work/src"
sed -i "s#=> /repo#=> $repo#" "$work/src/go.mod"
if [ "$id" = C20 ]; then flags="-race"; else flags="-cover -covermode=set -coverpkg=verif/harness,github.com/ecoshub/jin"; fi
(cd "$work/src" && go build $flags -o "$work/harness" .) || exit 3
mkdir -p /tmp/scratch_replays "$work/pcov"
export GOCOVERDIR="$work/pcov"
"$work/harness" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$work" -src "$repo" \
  -known "$(dirname "$0")/../known-findings.txt" -replays /tmp/scratch_replays -out "$work/ev.json" "$@"
