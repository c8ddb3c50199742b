// Package vs runs threads under a scheduler whose every decision is one of the checked inputs, and stands in for package
// sync in the code under test. The checker instruments the code: it replaces the import of sync with this package, and
// reports the fields and package variables that each statement reads and writes through R and W.
//
// Switches happen where a lock is taken or waited for. This covers every behaviour of code without data races, and data
// races are themselves found, by comparing vector clocks.
package vs

import (
	"sync"

	"github.com/google/xtoproto/zz_verif/nd"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Pool is sync.Pool.
	Pool = sync.Pool
)

type thread struct {
	id      int
	clock   []int
	started bool
	done    bool
	wait    func() bool
}

type access struct {
	p     interface{}
	write []int // clock of each thread at its last write, 0 if none
	read  []int
}

type state struct {
	threads  []*thread
	cur      *thread
	acc      []*access
	failed   interface{}
	deadlock bool
	race     bool
}

var s *state

// Run runs the functions as concurrent threads, and returns when all of them have.
func Run(fs ...func()) {
	if s != nil {
		panic("vs.Run within vs.Run")
	}
	n := len(fs) + 1
	st := &state{}
	for i := 0; i < n; i++ {
		st.threads = append(st.threads, &thread{id: i, clock: make([]int, n)})
		st.threads[i].clock[i] = 1
	}
	main := st.threads[0]
	for i := range fs {
		i := i
		st.threads[i+1].clock[0] = 1
		id := spawn(func() int {
			st.body(fs[i])
			st.cur.done = true
			return st.next()
		})
		if id != i+1 {
			panic("vs: thread number")
		}
	}
	main.clock[0]++
	main.wait = func() bool {
		for _, t := range st.threads[1:] {
			if !t.done {
				return true
			}
		}
		return false
	}
	s = st
	to := st.next()
	transfer(0, to)
	s = nil
	reset()
	if st.failed != nil {
		panic(st.failed)
	}
	nd.Assert(!st.deadlock, "no-deadlock")
	nd.Assert(!st.race, "no-data-race")
}

func (st *state) body(f func()) {
	defer func() {
		if r := recover(); r != nil {
			st.failed = r
		}
	}()
	f()
}

// next chooses the thread to run next.
func (st *state) next() int {
	if st.failed != nil || st.race {
		st.cur = st.threads[0]
		return 0
	}
	// what a thread does before its first lock needs no schedules of its own
	for _, t := range st.threads[1:] {
		if !t.started {
			t.started = true
			st.cur = t
			return t.id
		}
	}
	var ids []int
	for _, t := range st.threads {
		if !t.done && (t.wait == nil || !t.wait()) {
			ids = append(ids, t.id)
		}
	}
	if len(ids) == 0 {
		st.deadlock = true
		st.cur = st.threads[0]
		return 0
	}
	k := ids[0]
	if len(ids) > 1 {
		k = ids[nd.Choose(len(ids))]
	}
	st.cur = st.threads[k]
	return k
}

func (st *state) yield() {
	from := st.cur.id
	if to := st.next(); to != from {
		transfer(from, to)
	}
}

// block waits until the condition no longer holds.
func block(wait func() bool) {
	if s == nil {
		nd.Assert(!wait(), "no-deadlock")
		return
	}
	t := s.cur
	t.wait = wait
	s.yield()
	t.wait = nil
}

func join(to *[]int, from []int) {
	for len(*to) < len(from) {
		*to = append(*to, 0)
	}
	for i, c := range from {
		if c > (*to)[i] {
			(*to)[i] = c
		}
	}
}

// acquire makes what happened before the release of c happen before what follows.
func acquire(c []int) {
	if s != nil {
		join(&s.cur.clock, c)
	}
}

func release(c *[]int) {
	if s != nil {
		join(c, s.cur.clock)
		s.cur.clock[s.cur.id]++
	}
}

func at(p interface{}) *access {
	for _, a := range s.acc {
		if a.p == p {
			return a
		}
	}
	a := &access{p, make([]int, len(s.threads)), make([]int, len(s.threads))}
	s.acc = append(s.acc, a)
	return a
}

// R records that the memory p points to is read.
func R(p interface{}) {
	if s == nil {
		return
	}
	a, t := at(p), s.cur
	for i, c := range a.write {
		if i != t.id && c > t.clock[i] {
			s.raced()
		}
	}
	a.read[t.id] = t.clock[t.id]
}

// W records that the memory p points to is written.
func W(p interface{}) {
	if s == nil {
		return
	}
	a, t := at(p), s.cur
	for i := range a.write {
		if i != t.id && (a.write[i] > t.clock[i] || a.read[i] > t.clock[i]) {
			s.raced()
		}
	}
	a.write[t.id] = t.clock[t.id]
}

// raced ends the run: the main thread goes on and reports the race.
func (st *state) raced() {
	st.race = true
	from := st.cur.id
	st.cur = st.threads[0]
	transfer(from, 0)
}

// clockOf keeps the clock of a lock for the duration of one run.
type clockOf struct {
	st *state
	c  []int
}

func (k *clockOf) get() *[]int {
	if k.st != s {
		k.st, k.c = s, nil
	}
	return &k.c
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	clock  clockOf
}

// Lock locks the mutex.
func (m *Mutex) Lock() {
	block(func() bool { return m.locked })
	m.locked = true
	acquire(*m.clock.get())
}

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	block(func() bool { return false })
	if m.locked {
		return false
	}
	m.locked = true
	acquire(*m.clock.get())
	return true
}

// Unlock unlocks the mutex.
func (m *Mutex) Unlock() {
	nd.Assert(m.locked, "unlock-of-locked")
	m.locked = false
	release(m.clock.get())
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	locked  bool
	readers int
	waiting int     // writers that wait: readers give way to them
	clock   clockOf // released by writers
	rclock  clockOf // released by readers
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	block(func() bool { return false }) // others may run before it is known to wait
	if m.locked || m.readers > 0 {
		m.waiting++
		block(func() bool { return m.locked || m.readers > 0 })
		m.waiting--
	}
	m.locked = true
	acquire(*m.clock.get())
	acquire(*m.rclock.get())
}

// Unlock unlocks after Lock.
func (m *RWMutex) Unlock() {
	nd.Assert(m.locked, "unlock-of-locked")
	m.locked = false
	release(m.clock.get())
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	block(func() bool { return m.locked || m.waiting > 0 })
	m.readers++
	acquire(*m.clock.get())
}

// RUnlock unlocks after RLock.
func (m *RWMutex) RUnlock() {
	nd.Assert(m.readers > 0, "unlock-of-locked")
	m.readers--
	release(m.rclock.get())
}

// TryLock is sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	block(func() bool { return false })
	if m.locked || m.readers > 0 {
		return false
	}
	m.Lock()
	return true
}

// TryRLock is sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	block(func() bool { return false })
	if m.locked || m.waiting > 0 {
		return false
	}
	m.RLock()
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is sync.Once.Do.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n     int
	clock clockOf
}

// Add is sync.WaitGroup.Add.
func (g *WaitGroup) Add(n int) {
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n < 0 {
		release(g.clock.get())
	}
}

// Done is sync.WaitGroup.Done.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait is sync.WaitGroup.Wait.
func (g *WaitGroup) Wait() {
	block(func() bool { return g.n > 0 })
	acquire(*g.clock.get())
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiting []*bool
	clock   clockOf
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is sync.Cond.Wait.
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	block(func() bool { return !*woken })
	acquire(*c.clock.get())
	c.L.Lock()
}

// Signal is sync.Cond.Signal.
func (c *Cond) Signal() {
	release(c.clock.get())
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}

// Broadcast is sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	release(c.clock.get())
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}

var atomics clockOf

// A comes before each statement with an atomic operation. All of them are taken to synchronise with each other.
func A() {
	if s == nil {
		return
	}
	block(func() bool { return false })
	acquire(*atomics.get())
	release(atomics.get())
}

// Map is sync.Map.
type Map struct {
	m     map[interface{}]interface{}
	keys  []interface{}
	clock clockOf
}

func (m *Map) enter() {
	block(func() bool { return false })
	acquire(*m.clock.get())
}

func (m *Map) leave() { release(m.clock.get()) }

// Load is sync.Map.Load.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	v, ok := m.m[k]
	return v, ok
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v interface{}) {
	m.enter()
	defer m.leave()
	m.store(k, v)
}

func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.enter()
	defer m.leave()
	if got, ok := m.m[k]; ok {
		return got, true
	}
	m.store(k, v)
	return v, false
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k interface{}) {
	m.enter()
	defer m.leave()
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.enter()
	keys := append([]interface{}(nil), m.keys...)
	m.leave()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
