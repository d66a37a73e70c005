//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true

func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
