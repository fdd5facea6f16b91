// Package vrt stands in for some of runtime.
package vrt

import (
	"runtime"

	"verif/vs"
)

func Gosched() { vs.Gosched() }

// NumCPU is the same on every machine.
func NumCPU() int { return 2 }

func GOMAXPROCS(n int) int {
	if n > 0 {
		return runtime.GOMAXPROCS(n)
	}
	return 2
}
