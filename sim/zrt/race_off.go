//go:build !race

package zrt

import "unsafe"

// RaceMode tells whether this binary was built with the race detector.
const RaceMode = false

func raceDisable()                    {}
func raceEnable()                     {}
func RaceAcquire(unsafe.Pointer)      {}
func RaceRelease(unsafe.Pointer)      {}
func RaceReleaseMerge(unsafe.Pointer) {}
