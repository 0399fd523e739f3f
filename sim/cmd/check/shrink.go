package main

import (
	"encoding/json"
	"os"
	"time"

	"simv/props"
	"simv/simrt"
)

// shrink minimises the choices of a failing run while it fails the same way.
func shrink(p *props.Prop, rp *Replay) {
	for _, w := range rp.Warmup {
		one(p, simrt.Config{Seed: seedOf(p, rp.Seed, w)})
	}
	deadline := time.Now().Add(45 * time.Second)
	best := *rp.Streams
	try := func(s simrt.Streams) bool {
		res := one(p, simrt.Config{Replay: &s})
		if res.Failure != nil && res.Failure.Class == rp.Class {
			best = res.Streams // as consumed
			trim(&best)
			return true
		}
		return false
	}
	if !try(best) {
		return // depends on the process state; leave as it is
	}
	get := func(s *simrt.Streams, k int) *[]uint64 {
		return []*[]uint64{&s.Gen, &s.Sched, &s.Fault, &s.Pool}[k]
	}
	for round := 0; round < 6; round++ {
		before := size(best)
		for k := 0; k < 4; k++ {
			// drop the whole stream, then halves, then chunks
			for n := len(*get(&best, k)); n >= 1; n /= 2 {
				for at := 0; at < len(*get(&best, k)); {
					if time.Now().After(deadline) {
						goto out
					}
					c := clone(best)
					v := get(&c, k)
					end := at + n
					if end > len(*v) {
						end = len(*v)
					}
					*v = append(append([]uint64(nil), (*v)[:at]...), (*v)[end:]...)
					if !try(c) {
						// zero instead of drop
						c = clone(best)
						v = get(&c, k)
						z := false
						for i := at; i < end && i < len(*v); i++ {
							if (*v)[i] != 0 {
								(*v)[i], z = 0, true
							}
						}
						if z {
							try(c)
						}
						at += n
					}
				}
			}
			for at := 0; at < len(*get(&best, k)); at++ {
				for {
					if time.Now().After(deadline) {
						goto out
					}
					c := clone(best)
					v := *get(&c, k)
					if at >= len(v) || v[at] == 0 {
						break
					}
					old := v[at]
					v[at] = old / 2
					if try(c) {
						continue
					}
					c = clone(best)
					v = *get(&c, k)
					if at >= len(v) || v[at] == 0 {
						break
					}
					v[at]--
					if !try(c) {
						break
					}
				}
			}
		}
		if size(best) >= before {
			break
		}
	}
out:
	rp.Streams = &best
	b, _ := json.Marshal(rp)
	os.WriteFile(*fReplay, b, 0o644)
}

func size(s simrt.Streams) int {
	n := 0
	for _, v := range [][]uint64{s.Gen, s.Sched, s.Fault, s.Pool} {
		n += 4 * len(v)
		for _, x := range v {
			for ; x > 0; x /= 2 {
				n++
			}
		}
	}
	return n
}

func clone(s simrt.Streams) simrt.Streams {
	f := func(v []uint64) []uint64 { return append([]uint64(nil), v...) }
	return simrt.Streams{Gen: f(s.Gen), Sched: f(s.Sched), Fault: f(s.Fault), Pool: f(s.Pool)}
}

func trim(s *simrt.Streams) {
	for _, v := range []*[]uint64{&s.Gen, &s.Sched, &s.Fault, &s.Pool} {
		for len(*v) > 0 && (*v)[len(*v)-1] == 0 {
			*v = (*v)[:len(*v)-1]
		}
	}
}
