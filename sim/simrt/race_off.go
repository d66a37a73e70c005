//go:build !race

package simrt

import "unsafe"

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }

const RaceBuild = false

func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}
