#!/bin/bash
# Warms the build cache; the checks build for themselves.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
scratch="$(mktemp -d /tmp/verif.XXXXXX)" || exit 3
trap '/bin/rm -rf "$scratch"' EXIT
cp -r "$here/harness" "$scratch/harness" && cd "$scratch/harness" && go build -o "$scratch/h" . || exit 3
bash "$here/sched/build.sh" "$scratch/s" race
