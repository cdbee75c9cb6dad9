//go:build !race

package rt

import "unsafe"

// RaceBuild tells whether the race detector is on.
const RaceBuild = false

func raceOff()                     {}
func raceOn()                      {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
