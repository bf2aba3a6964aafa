//go:build !race

package vharness

func raceOff() {}
func raceOn()  {}
