//go:build race

package simrt

import "runtime"

// The hand-over of the processor between tasks is not synchronisation the
// library performs, so it must not order memory accesses for the race detector.

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true
