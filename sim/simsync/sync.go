// Package simsync stands in for package sync in the instrumented build: locks,
// pools and groups are under the control of the simulation.
package simsync

import (
	"reflect"
	"sync"
	"unsafe"

	"simv/simrt"
)

type Locker = sync.Locker

// Map is a map whose operations are atomic steps of the simulation.
type Map struct {
	m   map[any]any
	tok uint64
}

func (m *Map) enter() {
	simrt.Yield("map")
	simrt.RaceAcquire(unsafe.Pointer(&m.tok))
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) leave() { simrt.RaceRelease(unsafe.Pointer(&m.tok)) }

func (m *Map) Load(k any) (any, bool) {
	m.enter()
	defer m.leave()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.enter(); defer m.leave(); m.m[k] = v }
func (m *Map) Clear()         { m.enter(); defer m.leave(); m.m = nil }
func (m *Map) Delete(k any)   { m.enter(); defer m.leave(); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	defer m.leave()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	defer m.leave()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	defer m.leave()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	defer m.leave()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	defer m.leave()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	es := simrt.Entries(m.m)
	m.leave()
	for _, e := range es {
		if v, ok := m.Load(e.Key); ok && !f(e.Key, v) {
			return
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// state of a lock belongs to one run; a newer run starts with a free lock so
// that a run aborted inside a critical section cannot poison the next one.
type lockState struct {
	run     *simrt.Sim
	writer  bool
	readers int
	waiting int // writers waiting: new readers queue behind them
}

func (l *lockState) sync(s *simrt.Sim) {
	if l.run != s {
		*l = lockState{run: s}
	}
}

type Mutex struct {
	st   lockState
	real sync.Mutex
}

func (m *Mutex) Lock() {
	s := simrt.Cur()
	if s == nil {
		m.real.Lock()
		return
	}
	simrt.Yield("lock")
	m.st.sync(s)
	s.Block("a mutex", func() bool { return !m.st.writer })
	m.st.writer = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	s := simrt.Cur()
	if s == nil {
		return m.real.TryLock()
	}
	simrt.Yield("trylock")
	m.st.sync(s)
	if m.st.writer {
		return false
	}
	m.st.writer = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	s := simrt.Cur()
	if s == nil {
		m.real.Unlock()
		return
	}
	m.st.sync(s)
	if !m.st.writer {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.st.writer = false
	simrt.Yield("unlock")
}

type RWMutex struct {
	st   lockState
	real sync.RWMutex
	rtok uint64
}

func (m *RWMutex) Lock() {
	s := simrt.Cur()
	if s == nil {
		m.real.Lock()
		return
	}
	simrt.Yield("lock")
	m.st.sync(s)
	m.st.waiting++
	func() {
		defer func() { m.st.waiting-- }()
		s.Block("a write lock", func() bool { return !m.st.writer && m.st.readers == 0 })
	}()
	m.st.writer = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
}

func (m *RWMutex) TryLock() bool {
	s := simrt.Cur()
	if s == nil {
		return m.real.TryLock()
	}
	simrt.Yield("trylock")
	m.st.sync(s)
	if m.st.writer || m.st.readers > 0 {
		return false
	}
	m.st.writer = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rtok))
	return true
}

func (m *RWMutex) Unlock() {
	s := simrt.Cur()
	if s == nil {
		m.real.Unlock()
		return
	}
	m.st.sync(s)
	if !m.st.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.st.writer = false
	simrt.Yield("unlock")
}

func (m *RWMutex) RLock() {
	s := simrt.Cur()
	if s == nil {
		m.real.RLock()
		return
	}
	simrt.Yield("rlock")
	m.st.sync(s)
	s.Block("a read lock", func() bool { return !m.st.writer && m.st.waiting == 0 })
	m.st.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	s := simrt.Cur()
	if s == nil {
		return m.real.TryRLock()
	}
	simrt.Yield("tryrlock")
	m.st.sync(s)
	if m.st.writer || m.st.waiting > 0 {
		return false
	}
	m.st.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	s := simrt.Cur()
	if s == nil {
		m.real.RUnlock()
		return
	}
	m.st.sync(s)
	if m.st.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rtok))
	m.st.readers--
	simrt.Yield("runlock")
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

type WaitGroup struct {
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if simrt.Cur() == nil {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() {
	if simrt.Cur() == nil {
		w.real.Done()
		return
	}
	simrt.RaceRelease(unsafe.Pointer(w))
	w.Add(-1)
	simrt.Yield("wg")
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	s := simrt.Cur()
	if s == nil {
		w.real.Wait()
		return
	}
	s.Block("a wait group", func() bool { return w.n == 0 })
	simrt.RaceAcquire(unsafe.Pointer(w))
}

type Cond struct {
	L   Locker
	gen int
	q   []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	if s := simrt.Cur(); s != nil {
		s.Block("a condition", func() bool { return *woken })
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool hands out either a pooled item or a new one, as the simulation decides,
// which is all that sync.Pool promises. While an item is in the pool its
// memory is poisoned: whoever still reads it sees garbage, and whoever writes
// it is found out when the item is taken again.
type Pool struct {
	noCopy [0]func()
	New    func() any

	run   *simrt.Sim
	items []*pooled
}

type pooled struct {
	x     any
	mem   []byte // the item's memory, if known
	saved []byte
	tok   *uint64
}

const poison = 0xA5

// used are the pools of the running simulation.
var used []*Pool

func (p *Pool) use(s *simrt.Sim) {
	if p.run == s {
		return
	}
	p.run, p.items = s, nil
	if len(used) > 0 && used[0].run != s {
		used = nil
	}
	used = append(used, p)
}

// CheckPools reports writes to memory that is still in a pool.
func CheckPools(s *simrt.Sim) {
	for _, p := range used {
		if p.run != s {
			continue
		}
		for _, it := range p.items {
			it.check(s)
		}
	}
}

func (it *pooled) check(s *simrt.Sim) {
	for j := range it.mem {
		if it.mem[j] != poison {
			s.Fail("pool-use-after-put", "pooled memory was written (offset %d of %d) after it had been returned to the pool", j, len(it.mem))
		}
	}
}

// memory returns the bytes behind the common pooled types.
func memory(x any) []byte {
	v := reflect.ValueOf(x)
	for i := 0; v.Kind() == reflect.Ptr && i < 2; i++ {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice || v.Cap() == 0 || v.IsNil() {
		return nil
	}
	if !plain(v.Type().Elem()) {
		return nil
	}
	n := v.Cap() * int(v.Type().Elem().Size())
	return unsafe.Slice((*byte)(v.UnsafePointer()), n)
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	case reflect.Array:
		return plain(t.Elem())
	}
	return false
}

func (p *Pool) Get() any {
	s := simrt.Cur()
	if s == nil {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	simrt.Yield("pool get")
	p.use(s)
	k := 0
	if len(p.items) > 0 {
		// 0: the item put last; last choice: a new one.
		k = s.P.N(len(p.items) + 1)
	}
	if len(p.items) > 0 && k < len(p.items) {
		i := len(p.items) - 1 - k
		it := p.items[i]
		for ; i+1 < len(p.items); i++ {
			p.items[i] = p.items[i+1]
		}
		p.items = p.items[:len(p.items)-1]
		simrt.RaceAcquire(unsafe.Pointer(it.tok))
		it.check(s)
		copy(it.mem, it.saved)
		s.Probe("pool item reused")
		return it.x
	}
	s.Probe("pool item new")
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	s := simrt.Cur()
	if s == nil || x == nil {
		return
	}
	p.use(s)
	it := &pooled{x: x, mem: memory(x), tok: new(uint64)}
	for _, o := range p.items {
		if len(o.mem) > 0 && len(it.mem) > 0 && &o.mem[0] == &it.mem[0] {
			s.Fail("pool-double-put", "the same memory was returned to a pool twice")
		}
	}
	it.saved = append([]byte(nil), it.mem...)
	for j := range it.mem {
		it.mem[j] = poison
	}
	simrt.RaceRelease(unsafe.Pointer(it.tok))
	if len(p.items) < 8 {
		p.items = append(p.items, it)
	}
	simrt.Yield("pool put")
}
