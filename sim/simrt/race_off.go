//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether the happens-before oracle is compiled in.
const RaceBuild = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of race reports so far in this process.
func RaceErrors() int { return 0 }
