//go:build !race

package sched

// RaceMode tells whether the race detector watches the code under test.
const RaceMode = false

func raceDisable()           {}
func raceEnable()            {}
func raceAcquire(*byte)      {}
func raceRelease(*byte)      {}
func raceReleaseMerge(*byte) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func newTok() *byte { return nil }
