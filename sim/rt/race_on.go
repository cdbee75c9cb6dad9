//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is on.
const RaceBuild = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
