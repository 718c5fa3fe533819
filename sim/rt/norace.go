//go:build !race

package rt

import "unsafe"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
