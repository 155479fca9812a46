//go:build !race

package vsync

import "unsafe"

func raceOff()                    {}
func raceOn()                     {}
func acquire(unsafe.Pointer)      {}
func release(unsafe.Pointer)      {}
func releaseMerge(unsafe.Pointer) {}

// Racy reports whether the race detector is there.
const Racy = false
