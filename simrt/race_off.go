//go:build !race

package simrt

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }

const RaceBuild = false
