// Package simrt is the deterministic simulator's run-time: seeded choice
// streams, one-at-a-time task scheduling, a simulated clock, event log and
// statistics. Nothing in here reads a real clock or a real random source.
package simrt

// Stream is one recorded sequence of bounded choices. In record mode every
// choice is drawn from a PRNG and remembered; in replay mode choices come from
// the remembered list and are 0 (the simplest choice) once it is exhausted.
type Stream struct {
	state  uint64
	Rec    []uint64
	rep    []uint64
	replay bool
	pos    int
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix combines values into a seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h = mix(h ^ mix(v))
	}
	return h
}

func newStream(seed uint64) *Stream { return &Stream{state: seed} }

func replayStream(vals []uint64) *Stream { return &Stream{rep: vals, replay: true} }

func (s *Stream) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// N returns a choice in [0,n); 0 is the simplest.
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.rep) {
			v = s.rep[s.pos] % uint64(n)
		}
		s.pos++
	} else {
		v = s.next() % uint64(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// U64 returns an unbounded choice; 0 is the simplest.
func (s *Stream) U64() uint64 {
	var v uint64
	if s.replay {
		if s.pos < len(s.rep) {
			v = s.rep[s.pos]
		}
		s.pos++
	} else {
		v = s.next() >> 12 // exactly representable in a JSON number
	}
	s.Rec = append(s.Rec, v)
	return v
}

// Chance is true with probability num/den; false is the simplest.
func (s *Stream) Chance(num, den int) bool {
	return s.N(den) >= den-num
}

// Range returns a choice in [lo,hi]; lo is the simplest.
func (s *Stream) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Size returns a size in [0,max] biased to small values; 0 is the simplest.
func (s *Stream) Size(max int) int {
	if max <= 0 {
		return 0
	}
	lim := max
	switch s.N(4) {
	case 0:
		if lim > 3 {
			lim = 3
		}
	case 1:
		if lim > 16 {
			lim = 16
		}
	}
	return s.N(lim + 1)
}

// Bytes fills b from one recorded choice (0 gives zeroes).
func (s *Stream) Bytes(b []byte) {
	seed := s.U64()
	if seed == 0 {
		for i := range b {
			b[i] = 0
		}
		return
	}
	FillBytes(b, seed)
}

// FillBytes expands a seed to bytes.
func FillBytes(b []byte, seed uint64) {
	st := seed
	for i := 0; i < len(b); i += 8 {
		st += 0x9e3779b97f4a7c15
		v := mix(st)
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
}
