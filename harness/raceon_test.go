//go:build race

package vharness

import "runtime"

// Between raceOff and raceOn the race detector takes no notice of synchronisation done by this goroutine, so the
// bookkeeping of the harness hides no race of the library.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
