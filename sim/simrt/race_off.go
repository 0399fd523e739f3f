//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells that the race detector judges this build.
const RaceEnabled = false

func raceDisable()      {}
func raceEnable()       {}
func raceSpawn(t *Task) {}
func raceStart(t *Task) {}
func raceEnd(t *Task)   {}
func raceJoin(t *Task)  {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func RaceRead(b []byte)            {}
func RaceWrite(b []byte)           {}
