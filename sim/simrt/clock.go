package simrt

import "time"

var epoch = time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC)

// TimeNow replaces time.Now in the code under test. Every look at the clock
// finds it has moved on; sometimes it jumps.
func TimeNow() time.Time {
	s := active.Load()
	if s == nil {
		return time.Now()
	}
	s.Now += time.Duration(1+s.F.N(1000)) * time.Microsecond
	if s.F.Chance(1, 8) {
		s.Fault("clock jump")
		s.Now += time.Duration(s.F.N(100000)) * time.Second
	}
	return epoch.Add(s.Now)
}

// TimeSleep replaces time.Sleep.
func TimeSleep(d time.Duration) {
	s := active.Load()
	if s == nil {
		time.Sleep(d)
		return
	}
	s.Sleep(d)
}

// TimeSince replaces time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
