#!/bin/bash
# build.sh SCRATCH [race]: weaves /repo and the worker pool it uses, and builds the
# harness with what comes out of it, in SCRATCH.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
scratch="$1"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p "$scratch/weave" "$scratch/list" && cp -r "$here/vs" "$here/conc" "$scratch/" && cp -r "$here/weave/." "$scratch/weave/" || exit 3
cp "$here/../harness/fsx.go" "$scratch/conc/" || exit 3
(cd "$scratch/weave" && go build -o "$scratch/weaver" .) || exit 3
cp "$here/../harness/go.mod" "$here/../harness/go.sum" "$scratch/list/"
cat > "$scratch/list/main.go" <<G
package main

import (
	_ "github.com/snivilised/agenor"
	_ "github.com/snivilised/li18ngo"
	_ "github.com/snivilised/nefilim"
	_ "github.com/snivilised/pants"
)

func main() {}
G
"$scratch/weaver" "$scratch/list" "$scratch" github.com/snivilised/agenor=agenor github.com/snivilised/pants=pants || exit 3
# the spin lock of the pool is a mutex
cat > "$scratch/pants/internal/third/ants/async/spinlock.go" <<G
package async

import (
	"sync"

	"verif/vs/vsync"
)

// NewSpinLock is a lock.
func NewSpinLock() sync.Locker { return new(vsync.Mutex) }
G
cd "$scratch/conc" || exit 3
go build -o "$scratch/conc.bin" . || exit 3
if [ "$2" = race ]; then
	# the race detector is to look at the woven code, not at the scheduler
	for f in $(find "$scratch/vs" -name '*.go'); do
		sed -i 's|^func |//go:norace\n//go:noinline\nfunc |' "$f"
	done
	go build -race -o "$scratch/conc.race" . || exit 3
fi
