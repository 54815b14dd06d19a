//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the happens-before oracle is compiled in.
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of race reports so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
