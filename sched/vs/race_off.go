//go:build !race

package vs

import "unsafe"

const Race = false

func acquire(unsafe.Pointer) {}
func release(unsafe.Pointer) {}
func syncOff()               {}
func syncOn()                {}

// Races is the number of data races reported so far.
func Races() int { return 0 }
