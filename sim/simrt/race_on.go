//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells that the race detector judges this build.
const RaceEnabled = true

// The hand-over from one task to the next must not look like synchronisation
// to the race detector: only the code's own locks, pools and joins do.
func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceSpawn(t *Task) { runtime.RaceReleaseMerge(unsafe.Pointer(&t.tok)) }
func raceStart(t *Task) { runtime.RaceAcquire(unsafe.Pointer(&t.tok)) }
func raceEnd(t *Task)   { runtime.RaceReleaseMerge(unsafe.Pointer(&t.tok)) }
func raceJoin(t *Task)  { runtime.RaceAcquire(unsafe.Pointer(&t.tok)) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceRead(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func RaceWrite(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
