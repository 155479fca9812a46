//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// In the race build the scheduler's own hand-overs are hidden from the race
// detector (this package is compiled without instrumentation), and the stand-ins
// tell it about the ordering that the real primitives would give: it then finds
// the races of each schedule although threads run one at a time.

func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Racy reports whether the race detector is there.
const Racy = true
