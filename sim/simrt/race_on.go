//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
