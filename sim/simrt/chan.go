package simrt

import (
	"io"
	"reflect"
	"time"
	"unsafe"
)

// Channels of the code under test. Tasks never block in the runtime, as only
// one of them runs at a time: an operation that would block waits for its
// turn in the scheduler. Data still passes through real channels, so that the
// race detector sees the order they make. An unbuffered channel hands each
// element over in a channel of its own.

// What is generic here is compiled into the packages that use it, and watched
// by the race detector there: it must not touch anything that tasks share.

type chanState struct {
	key     unsafe.Pointer
	offers  []offer // hand-overs that were not yet taken
	waiting int     // receivers that are blocked
	closed  bool
	tok     uint64
}

// offer is a chan T holding one element, or emptied.
type offer struct {
	c any
	p unsafe.Pointer
}

var chans []*chanState

func init() {
	OnReset = append(OnReset, func(*Sim) { chans = nil })
	c := make(chan int, 3)
	c <- 1
	if p := *(*unsafe.Pointer)(unsafe.Pointer(&c)); chanLen(p) != 1 || chanCap(p) != 3 {
		panic("simrt: channels have another layout than expected")
	}
}

func stateOf(key unsafe.Pointer) *chanState {
	for i := len(chans) - 1; i >= 0; i-- {
		if chans[i].key == key {
			return chans[i]
		}
	}
	st := &chanState{key: key}
	chans = append(chans, st)
	return st
}

func chanLen(p unsafe.Pointer) int { return int(*(*uint)(p)) }
func chanCap(p unsafe.Pointer) int { return int(*(*uint)(unsafe.Add(p, unsafe.Sizeof(uint(0))))) }

// pending counts the offers, and forgets those taken.
func (st *chanState) pending() int {
	k := 0
	for _, o := range st.offers {
		if chanLen(o.p) > 0 {
			st.offers[k] = o
			k++
		}
	}
	st.offers = st.offers[:k]
	return k
}

// recvReady tells whether a receive from c would not block.
func (st *chanState) recvReady(c any) bool {
	if st.key == nil {
		return false
	}
	if st.closed || chanLen(st.key) > 0 || st.pending() > 0 {
		return true
	}
	if chanCap(st.key) == 0 { // closed by somebody else, such as a context
		raceDisable()
		v, ok := reflect.ValueOf(c).TryRecv()
		raceEnable()
		st.closed = v.IsValid() && !ok
	}
	return st.closed
}

// next is the offer to be taken, if there is one.
func (st *chanState) next() any {
	if st.pending() == 0 {
		return nil
	}
	RaceRelease(unsafe.Pointer(&st.tok))
	return st.offers[0].c
}

func (st *chanState) sendReady() bool {
	switch {
	case st.key == nil:
		return false
	case st.closed:
		return true // to panic
	case chanCap(st.key) > 0:
		return chanLen(st.key) < chanCap(st.key)
	}
	return st.waiting > st.pending()
}

func (st *chanState) unbuffered() bool { return st.key != nil && chanCap(st.key) == 0 && !st.closed }

func (st *chanState) offer(c any, p unsafe.Pointer) { st.offers = append(st.offers, offer{c, p}) }

// waitTaken waits until the offer p is taken; it is not when c gets closed.
func (st *chanState) waitTaken(s *Sim, p unsafe.Pointer) bool {
	s.Block("a channel send", func() bool { return chanLen(p) == 0 || st.closed })
	if chanLen(p) != 0 {
		return false
	}
	RaceAcquire(unsafe.Pointer(&st.tok))
	return true
}

func (st *chanState) waitSend(s *Sim) { s.Block("a channel send", st.sendReady) }

func (st *chanState) waitRecv(s *Sim, c any) {
	if st.recvReady(c) {
		return
	}
	st.waiting++
	defer func() { st.waiting-- }()
	s.Block("a channel receive", func() bool { return st.recvReady(c) })
}

// SendTo is c <- v.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		s := Cur()
		if s == nil {
			c <- v
			return
		}
		Yield("chan send")
		st := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
		if st.unbuffered() {
			t := make(chan T, 1)
			t <- v
			p := *(*unsafe.Pointer)(unsafe.Pointer(&t))
			st.offer(t, p)
			if st.waitTaken(s, p) {
				return
			}
		} else {
			st.waitSend(s)
		}
		c <- v
		Yield("chan sent")
	}
}

// Recv2 is v, ok = <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	s := Cur()
	if s == nil {
		v, ok = <-c
		return
	}
	Yield("chan receive")
	st := stateOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	st.waitRecv(s, c)
	if t := st.next(); t != nil {
		v, ok = <-t.(chan T)
	} else {
		v, ok = <-c
	}
	return
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Iter ranges over a channel.
type Iter[T any] struct {
	V T
	c <-chan T
}

// RangeChan starts ranging over c.
func RangeChan[T any](c <-chan T) *Iter[T] { return &Iter[T]{c: c} }

// Next receives the next element.
func (i *Iter[T]) Next() (ok bool) {
	i.V, ok = Recv2(i.c)
	return
}

// Close is close(c).
func Close[T any](c chan<- T) {
	markClosed(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	close(c)
}

func markClosed(p unsafe.Pointer) {
	if Cur() != nil && p != nil {
		Yield("chan close")
		stateOf(p).closed = true
	}
}

// Sel is one execution of a select statement: a first pass in which no case is
// ready finds out which ones are, a second one lets the chosen one through.
type Sel struct {
	def    bool
	pass   int
	chosen int
	cases  []selCase
}

type selCase struct {
	st   *chanState
	c    any
	send bool
}

// NewSel starts a select statement.
func NewSel(hasDefault bool) *Sel { return &Sel{def: hasDefault, chosen: -1} }

// at registers case i in the first pass; it returns what to use in the second.
func (s *Sel) at(i int, p unsafe.Pointer, c any, send bool) *selCase {
	if s.pass == 0 {
		s.cases = append(s.cases, selCase{stateOf(p), c, send})
	} else if i == s.chosen {
		return &s.cases[i]
	}
	return nil
}

func (c *selCase) what() (st *chanState, ch any) { return c.st, c.c }

// SelRecv stands for the channel of a receiving case.
func SelRecv[T any](s *Sel, i int, c <-chan T) <-chan T {
	if Cur() == nil {
		return c
	}
	x := s.at(i, *(*unsafe.Pointer)(unsafe.Pointer(&c)), c, false)
	if x == nil {
		return nil
	}
	st, ch := x.what()
	if t := st.next(); t != nil {
		return t.(chan T)
	}
	return ch.(<-chan T)
}

// SelSend stands for the channel of a sending case.
func SelSend[T any](s *Sel, i int, c chan<- T) chan<- T {
	if Cur() == nil {
		return c
	}
	x := s.at(i, *(*unsafe.Pointer)(unsafe.Pointer(&c)), c, true)
	if x == nil {
		return nil
	}
	st, ch := x.what()
	if st.unbuffered() {
		t := make(chan T, 1)
		st.offer(t, *(*unsafe.Pointer)(unsafe.Pointer(&t)))
		return t
	}
	return ch.(chan<- T)
}

func (s *Sel) ready() (out []int) {
	for i, c := range s.cases {
		if c.send && c.st.sendReady() || !c.send && c.st.recvReady(c.c) {
			out = append(out, i)
		}
	}
	return
}

func (s *Sel) wait(by int) {
	for _, c := range s.cases {
		if !c.send {
			c.st.waiting += by
		}
	}
}

// Again is called when no case was ready; it tells whether to try once more
// after having waited, or to take the default.
func (s *Sel) Again() bool {
	sim := Cur()
	if sim == nil {
		return !s.def
	}
	Yield("select")
	r := s.ready()
	if len(r) == 0 {
		if s.def {
			return false
		}
		func() {
			s.wait(1)
			defer s.wait(-1)
			sim.Block("a select", func() bool { return len(s.ready()) > 0 })
		}()
		r = s.ready()
	}
	s.chosen, s.pass = r[sim.S.N(len(r))], 1
	return true
}

// TimeAfter replaces time.After.
func TimeAfter(d time.Duration) <-chan time.Time {
	if Cur() == nil {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Go(func() {
		Cur().Sleep(d)
		c <- TimeNow()
	})
	return c
}

// pipe is what io.Pipe makes: writes wait until readers have taken all.
type pipe struct {
	busy       bool // a write is under way
	data       []byte
	rerr, werr error
	tok        uint64
}

// PipeReader replaces io.PipeReader.
type PipeReader struct {
	p    *pipe
	real *io.PipeReader // outside of a simulation
}

// PipeWriter replaces io.PipeWriter.
type PipeWriter struct {
	p    *pipe
	real *io.PipeWriter
}

// Pipe replaces io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	if Cur() == nil {
		r, w := io.Pipe()
		return &PipeReader{real: r}, &PipeWriter{real: w}
	}
	p := &pipe{}
	return &PipeReader{p: p}, &PipeWriter{p: p}
}

func (p *pipe) wait(what string, cond func() bool) {
	Yield(what)
	if s := Cur(); s != nil {
		s.Block(what, cond)
	}
	RaceAcquire(unsafe.Pointer(&p.tok))
}

func (r *PipeReader) Read(b []byte) (int, error) {
	if r.real != nil {
		return r.real.Read(b)
	}
	p := r.p
	p.wait("a pipe read", func() bool { return p.rerr != nil || p.werr != nil || p.busy })
	defer RaceRelease(unsafe.Pointer(&p.tok))
	switch {
	case p.rerr != nil:
		return 0, io.ErrClosedPipe
	case p.busy:
		n := copy(b, p.data)
		RaceWrite(b[:n])
		RaceRead(p.data[:n])
		p.data = p.data[n:]
		if len(p.data) == 0 {
			p.busy = false
		}
		return n, nil
	}
	return 0, p.werr
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if r.real != nil {
		return r.real.CloseWithError(err)
	}
	if err == nil {
		err = io.ErrClosedPipe
	}
	RaceRelease(unsafe.Pointer(&r.p.tok))
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	if w.real != nil {
		return w.real.Write(b)
	}
	p := w.p
	p.wait("a pipe write", func() bool { return p.rerr != nil || p.werr != nil || !p.busy })
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.busy, p.data = true, b
	RaceRelease(unsafe.Pointer(&p.tok))
	p.wait("a pipe write", func() bool { return p.rerr != nil || !p.busy })
	if p.busy {
		n := len(b) - len(p.data)
		p.busy = false
		return n, p.rerr
	}
	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if w.real != nil {
		return w.real.CloseWithError(err)
	}
	if err == nil {
		err = io.EOF
	}
	RaceRelease(unsafe.Pointer(&w.p.tok))
	if w.p.werr == nil {
		w.p.werr = err
	}
	return nil
}
