#!/bin/bash
# check.sh ID [thorough]: decides one property of the code in /repo's working tree.
# Everything is built in a scratch directory, which goes away afterwards.
id=$1
[ -n "$2" ] && export VERIF_TIER="$2"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="${VERIF_DIR:-$here}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
scratch="$(mktemp -d /tmp/verif.XXXXXX)" || exit 3
trap '/bin/rm -rf "$scratch"' EXIT
export TMPDIR="$scratch/tmp"
mkdir -p "$TMPDIR" || exit 3
case "$id" in
C15|C16|C18)
	bash "$here/sched/build.sh" "$scratch" || exit 3
	cd "$scratch" || exit 3
	"$scratch/conc.bin" check "$id"
	exit $?
	;;
C17)
	bash "$here/sched/build.sh" "$scratch" race || exit 3
	cd "$scratch" || exit 3
	"$scratch/conc.race" check "$id"
	exit $?
	;;
esac
cp -r "$here/harness" "$scratch/harness" || exit 3
cd "$scratch/harness" || exit 3
go build -o "$scratch/h" . || exit 3
cd "$scratch" || exit 3
"$scratch/h" check "$id" || exit $?
case "$id" in
C29) # at the same time, too
	bash "$here/sched/build.sh" "$scratch" || exit 3
	VERIF_MERGE=1 "$scratch/conc.bin" check "$id"
	exit $?
	;;
esac
