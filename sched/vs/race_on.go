//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const Race = true

func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func syncOff()                 { runtime.RaceDisable() }
func syncOn()                  { runtime.RaceEnable() }

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
