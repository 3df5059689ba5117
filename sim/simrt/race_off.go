//go:build !race

package simrt

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceErrors() int        { return 0 }
func raceOff()               {}
func raceOn()                {}
func acquire(unsafe.Pointer) {}
func release(unsafe.Pointer) {}
