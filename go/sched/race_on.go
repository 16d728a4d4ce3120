//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// RaceMode tells whether the race detector watches the code under test.
const RaceMode = true

func raceDisable()             { runtime.RaceDisable() }
func raceEnable()              { runtime.RaceEnable() }
func raceAcquire(p *byte)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func newTok() *byte { return new(byte) }
