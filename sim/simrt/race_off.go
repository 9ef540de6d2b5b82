//go:build !race

package simrt

import "unsafe"

// RaceBuild tells if the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceAcquire / RaceRelease: the happens-before edges of the simulated
// synchronisation objects (no-op without the race detector).
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
