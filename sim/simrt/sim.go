package simrt

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Sim is one simulated execution. Exactly one goroutine (the current task)
// runs at any time; which one is decided by the Sched stream.
type Sim struct {
	G *Stream // workload: operations and data
	S *Stream // schedule: preemption points and next task
	F *Stream // faults and delivery
	P *Stream // pool and map iteration order

	Now      time.Duration // simulated clock
	Steps    int64         // instrumented statements executed
	MaxSteps int64
	Trace    bool

	tasks    []*Task
	cur      *Task
	nextID   int
	next     int64 // step at which to take the slow path
	preempt  int64 // step at which to preempt
	scale    int   // preemption interval scale of this run (swarm)
	multi    bool
	limit    int64
	limitTag string

	hash     uint64
	interl   uint64
	switches int
	events   int
	log      []string
	ticks    int64
	notes    [][6]int64

	failure  *Failure
	aborting bool

	// the task that watches for the end of its process, and the first of the
	// tasks that end with it
	owner     *Task
	ownerBase int
	killed    bool // the owner is still to be told

	faults counter // fault kind -> times fired
	probes counter // rare condition -> times seen
	done   chan struct{}
}

// Failure is a property violation found by a run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

type taskState int

const (
	runnable taskState = iota
	blocked
	sleeping
	finished
)

// Task is one simulated thread.
type Task struct {
	ID    int
	Name  string
	state taskState
	cond  func() bool
	what  string
	until time.Duration
	wake  chan struct{}
	fn    func()
	tok   uint64
}

type abortSignal struct{}

// CrashSignal unwinds the tasks of a simulated process that was killed.
type CrashSignal struct{}

var active atomic.Pointer[Sim]

// Cur returns the running simulation or nil.
func Cur() *Sim { return active.Load() }

// Config of one run.
type Config struct {
	Seed     uint64
	Replay   *Streams
	MaxSteps int64
	Trace    bool
}

// Streams holds the recorded choices of a run.
type Streams struct {
	Gen   []uint64 `json:"gen"`
	Sched []uint64 `json:"sched"`
	Fault []uint64 `json:"fault"`
	Pool  []uint64 `json:"pool"`
}

// Result of one run.
type Result struct {
	Failure  *Failure
	Streams  Streams
	Hash     uint64
	Interl   uint64
	Switches int
	Events   int
	Steps    int64
	Now      time.Duration
	Faults   map[string]int
	Probes   map[string]int
	Log      []string
	Tasks    int
}

// OnReset are called before every run so that seams drop state of earlier runs.
var OnReset []func(*Sim)

// Run executes body as the first task of a new simulation.
func Run(cfg Config, body func(s *Sim)) *Result {
	s := &Sim{MaxSteps: cfg.MaxSteps, Trace: cfg.Trace, hash: 14695981039346656037, interl: 14695981039346656037,
		done: make(chan struct{})}
	if s.MaxSteps == 0 {
		s.MaxSteps = 20_000_000
	}
	if cfg.Replay != nil {
		s.G, s.S, s.F, s.P = replayStream(cfg.Replay.Gen), replayStream(cfg.Replay.Sched), replayStream(cfg.Replay.Fault), replayStream(cfg.Replay.Pool)
	} else {
		s.G, s.S, s.F, s.P = newStream(Mix(cfg.Seed, 1)), newStream(Mix(cfg.Seed, 2)), newStream(Mix(cfg.Seed, 3)), newStream(Mix(cfg.Seed, 4))
	}
	s.limit = s.MaxSteps
	s.limitTag = "no-termination"
	s.recompute()
	for _, f := range OnReset {
		f(s)
	}
	s.spawn("main", func() { body(s) })
	first := s.tasks[0]
	s.cur = first
	active.Store(s)
	first.wake <- struct{}{}
	<-s.done
	active.Store(nil)
	return &Result{Failure: s.failure, Streams: Streams{s.G.Rec, s.S.Rec, s.F.Rec, s.P.Rec}, Hash: s.hash, Interl: s.interl,
		Switches: s.switches, Events: s.events, Steps: s.Steps, Now: s.Now, Faults: s.faults.m(), Probes: s.probes.m(), Log: s.log, Tasks: s.nextID}
}

func (s *Sim) spawn(name string, fn func()) *Task {
	t := &Task{ID: s.nextID, Name: name, wake: make(chan struct{}, 1), fn: fn}
	s.nextID++
	s.tasks = append(s.tasks, t)
	raceSpawn(t)
	go s.taskMain(t)
	return t
}

func (s *Sim) taskMain(t *Task) {
	s.park(t)
	raceStart(t)
	func() {
		defer func() {
			r := recover()
			switch r.(type) {
			case nil, abortSignal:
			case CrashSignal:
				s.killed = s.owner != nil
			default:
				s.setFailure("panic", fmt.Sprintf("task %s: %v\n%s", t.Name, r, stackTop()))
			}
		}()
		if !s.aborting {
			t.fn()
		}
	}()
	raceEnd(t)
	t.state = finished
	if s.failure != nil {
		s.aborting = true
	}
	s.switchFrom(t)
}

func stackTop() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "qmuntal/gltf") || strings.HasPrefix(l, "encoding/") {
			out = append(out, l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// pick returns the next task to run, or nil when all are finished.
func (s *Sim) pick() *Task {
	if s.killed && !s.aborting {
		return s.owner
	}
	for {
		var ready []*Task
		live := false
		for _, t := range s.tasks {
			switch t.state {
			case runnable:
				ready = append(ready, t)
			case blocked:
				live = true
				if s.aborting || t.cond() {
					ready = append(ready, t)
				}
			case sleeping:
				live = true
				if s.aborting || t.until <= s.Now {
					ready = append(ready, t)
				}
			}
		}
		if len(ready) > 0 {
			i := 0
			if len(ready) > 1 && !s.aborting {
				i = s.S.N(len(ready))
			}
			return ready[i]
		}
		if !live {
			return nil
		}
		// Nothing runnable: advance the clock to the next sleeper.
		var min *Task
		for _, t := range s.tasks {
			if t.state == sleeping && (min == nil || t.until < min.until) {
				min = t
			}
		}
		if min != nil {
			s.Now = min.until
			continue
		}
		if s.tasks[0].ID == 0 && s.tasks[0].state == finished {
			// Tasks that were left behind and wait for ever end here.
			s.aborting = true
			continue
		}
		var w []string
		for _, t := range s.tasks {
			if t.state == blocked {
				w = append(w, t.Name+" waits for "+t.what)
			}
		}
		s.setFailure("deadlock", "no task can proceed: "+strings.Join(w, "; "))
		s.aborting = true
	}
}

// switchFrom hands control to the next task; t is no longer running.
func (s *Sim) switchFrom(t *Task) {
	n := s.pick()
	if n == nil {
		close(s.done)
		return
	}
	n.state = runnable
	n.cond = nil
	s.cur = n
	if n != t {
		s.switches++
	}
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

func (s *Sim) park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

// reschedule gives other tasks a chance to run.
func (s *Sim) reschedule() {
	t := s.cur
	n := s.pick()
	n.state = runnable
	n.cond = nil
	if n != t {
		s.cur = n
		s.switches++
		raceDisable()
		n.wake <- struct{}{}
		<-t.wake
		raceEnable()
	}
	s.checkAbort()
}

func (s *Sim) checkAbort() {
	if s.aborting {
		panic(abortSignal{})
	}
	if s.killed && s.cur == s.owner {
		panic(CrashSignal{})
	}
}

func (s *Sim) recompute() {
	s.next = s.limit
	if s.multi && s.preempt < s.next {
		s.next = s.preempt
	}
}

// Seen tells which instrumented statements were executed in simulations.
var Seen [1 << 15]bool

// Y is called before every statement of the code under test.
func Y(site uint32) {
	s := active.Load()
	if s == nil {
		return
	}
	if site < uint32(len(Seen)) {
		Seen[site] = true
	}
	s.Steps++
	if s.Steps >= s.next {
		s.slow(site)
	}
}

func (s *Sim) slow(site uint32) {
	s.checkAbort()
	if s.Steps >= s.limit {
		s.Fail(s.limitTag, "more than %d steps executed (site %d)", s.limit, site)
	}
	if s.multi && s.Steps >= s.preempt {
		s.interl = (s.interl ^ uint64(site)) * 1099511628211
		s.interl = (s.interl ^ uint64(s.cur.ID)) * 1099511628211
		s.setPreempt()
		s.reschedule()
	}
}

var scales = []int{1 << 20, 4, 12, 40, 150, 600, 3000}

func (s *Sim) setPreempt() {
	sc := scales[s.scale]
	s.preempt = s.Steps + 1 + int64(s.S.N(2*sc))
	s.recompute()
}

// Concurrent runs fns as tasks and waits until all have ended.
func (s *Sim) Concurrent(names []string, fns ...func()) {
	s.scale = s.S.N(len(scales))
	s.multi = true
	s.setPreempt()
	var ts []*Task
	for i, f := range fns {
		ts = append(ts, s.spawn(names[i], f))
	}
	s.Block("tasks to end", func() bool {
		for _, t := range ts {
			if t.state != finished {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		raceJoin(t)
	}
	s.multi = false
	s.recompute()
	keep := s.tasks[:0]
	for _, t := range s.tasks {
		if t.state != finished {
			keep = append(keep, t)
		}
	}
	s.tasks = keep
}

// Go replaces the go statement in the code under test.
func Go(f func()) {
	s := active.Load()
	if s == nil {
		go f()
		return
	}
	if !s.multi {
		s.scale = s.S.N(len(scales))
		s.multi = true
		s.setPreempt()
	}
	s.spawn("go", f)
}

// Yield is an explicit scheduling point (used by seams).
func Yield(kind string) {
	s := active.Load()
	if s == nil {
		return
	}
	s.Steps++
	s.checkAbort()
	if s.Steps >= s.limit {
		s.Fail(s.limitTag, "more than %d steps executed (at %s)", s.limit, kind)
	}
	if s.multi && s.S.Chance(1, 3) {
		s.reschedule()
	}
}

// Block suspends the current task until cond holds.
func (s *Sim) Block(what string, cond func() bool) {
	s.checkAbort()
	if cond() {
		return
	}
	t := s.cur
	t.state, t.cond, t.what = blocked, cond, what
	s.reschedule()
}

// Sleep advances simulated time for the current task.
func (s *Sim) Sleep(d time.Duration) {
	s.checkAbort()
	if d <= 0 {
		return
	}
	t := s.cur
	t.state, t.until = sleeping, s.Now+d
	s.reschedule()
}

// Multi tells whether more than one task may be running.
func (s *Sim) Multi() bool { return s.multi }

// CurTask returns the id of the running task.
func (s *Sim) CurTask() int { return s.cur.ID }

// WithLimit runs f with a step budget; exceeding it is a failure of class tag.
func (s *Sim) WithLimit(n int64, tag string, f func()) {
	ol, ot := s.limit, s.limitTag
	if s.Steps+n < s.limit {
		s.limit, s.limitTag = s.Steps+n, tag
	}
	s.recompute()
	defer func() {
		s.limit, s.limitTag = ol, ot
		s.recompute()
	}()
	f()
}

func (s *Sim) setFailure(class, msg string) {
	if s.failure == nil {
		s.failure = &Failure{Class: class, Msg: msg}
		s.Event("FAIL", class)
	}
}

// Fail records a violation and unwinds the run.
func (s *Sim) Fail(class, format string, args ...any) {
	s.setFailure(class, fmt.Sprintf(format, args...))
	s.aborting = true
	s.next = 0
	panic(abortSignal{})
}

// Failed tells whether the run has already failed.
func (s *Sim) Failed() bool { return s.failure != nil }

// Panicked describes a panic of the code under test.
type Panicked struct {
	Value string
	Stack string
}

// Try runs f and returns its panic, letting the simulator's own signals pass.
func (s *Sim) Try(f func()) (p *Panicked) {
	defer func() {
		switch r := recover(); r.(type) {
		case nil:
		case abortSignal, CrashSignal:
			panic(r)
		default:
			p = &Panicked{Value: fmt.Sprint(r), Stack: stackTop()}
		}
	}()
	f()
	return nil
}

// TryCrash runs f; true means the simulated process was killed in it, with all
// the tasks it had started.
func (s *Sim) TryCrash(f func()) (crashed bool) {
	owner, base := s.owner, s.ownerBase
	s.owner, s.ownerBase = s.cur, s.nextID
	defer func() {
		r := recover()
		if _, ok := r.(CrashSignal); ok {
			for _, t := range s.tasks {
				if t.ID >= s.ownerBase {
					t.state = finished // never to be woken again
				}
			}
			s.killed = false
			crashed = true
			r = nil
		}
		s.owner, s.ownerBase = owner, base
		if r != nil {
			panic(r)
		}
	}()
	f()
	return false
}

// Event records one externally visible step of the run.
func (s *Sim) Event(kind string, args ...any) {
	s.events++
	var b strings.Builder
	b.WriteString(kind)
	for _, a := range args {
		b.WriteByte(' ')
		switch v := a.(type) {
		case string:
			b.WriteString(v)
		case []byte:
			fmt.Fprintf(&b, "#%d:%x", len(v), HashBytes(v))
		default:
			fmt.Fprint(&b, v)
		}
	}
	line := b.String()
	s.hash = (s.hash ^ HashString(line)) * 1099511628211
	if s.Trace {
		if len(s.log) < 4000 {
			s.log = append(s.log, fmt.Sprintf("[%d t=%v task=%d] %s", s.events, s.Now, s.curID(), line))
		}
	}
}

func (s *Sim) curID() int {
	if s.cur == nil {
		return -1
	}
	return s.cur.ID
}

// Fault counts an injected fault.
func (s *Sim) Fault(kind string, args ...any) {
	s.faults.inc(kind)
	s.Event("FAULT "+kind, args...)
}

// Probe counts a rare condition.
func (s *Sim) Probe(name string) { s.probes.inc(name) }

// HashString is FNV-1a.
func HashString(v string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(v); i++ {
		h = (h ^ uint64(v[i])) * 1099511628211
	}
	return h
}

// HashBytes is FNV-1a.
func HashBytes(v []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range v {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// KV is one entry of a map snapshot.
type KV[K comparable, V any] struct {
	Key   K
	Value V
	m     map[K]V
}

// Live reports whether the entry is still in the map.
//
//go:norace
func (e KV[K, V]) Live() bool { _, ok := e.m[e.Key]; return ok }

// Cur returns the entry's current value.
//
//go:norace
func (e KV[K, V]) Cur() V { return e.m[e.Key] }

// Entries lists a map's entries in an order chosen by the simulation.
//
//go:norace
func Entries[M ~map[K]V, K comparable, V any](m M) []KV[K, V] {
	out := make([]KV[K, V], 0, len(m))
	for k, v := range m {
		out = append(out, KV[K, V]{k, v, m})
	}
	if len(out) < 2 {
		return out
	}
	keys := make([]string, len(out))
	idx := make([]int, len(out))
	for i := range out {
		keys[i] = fmt.Sprint(out[i].Key)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	res := make([]KV[K, V], len(out))
	for i, j := range idx {
		res[i] = out[j]
	}
	s := active.Load()
	if s == nil {
		return res
	}
	for i := 0; i < len(res)-1; i++ {
		j := i + s.P.N(len(res)-i)
		res[i], res[j] = res[j], res[i]
	}
	return res
}

// Range4 prepares a range over a map in an order chosen by the simulation.
//
//go:norace
func Range4[M ~map[K]V, K comparable, V any](m M) (k K, v V, i int, es []KV[K, V]) {
	return k, v, 0, Entries(m)
}

// counter counts by name. A builtin map would report its accesses to the race
// detector, which sees no order between tasks.
type counter struct {
	names []string
	n     []int
}

func (c *counter) inc(name string) {
	for i, x := range c.names {
		if x == name {
			c.n[i]++
			return
		}
	}
	c.names, c.n = append(c.names, name), append(c.n, 1)
}

func (c *counter) m() map[string]int {
	m := map[string]int{}
	for i, x := range c.names {
		m[x] = c.n[i]
	}
	return m
}

// Tick returns the next value of a counter that orders what tasks do.
func (s *Sim) Tick() int64 { s.ticks++; return s.ticks }

// Note adds a record to the run's history, which Notes returns; neither is
// visible to the race detector.
func (s *Sim) Note(rec [6]int64) { s.notes = append(s.notes, rec) }

// Notes is the history recorded so far.
func (s *Sim) Notes() [][6]int64 { return s.notes }
