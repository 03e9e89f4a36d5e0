//go:build go1.21

package mc

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

type mstate struct {
	gen     uint64
	id      uint64
	locked  bool
	readers int
	vc      VC // released by writers
	rvc     VC // released by readers
}

func (e *Exec) mst(p **mstate) *mstate {
	m := *p
	if m == nil || m.gen != e.gen {
		m = &mstate{gen: e.gen, id: NewObj()}
		*p = m
	}
	return m
}

// UnlockPoints makes the moment after an unlock a scheduling point, so that
// others may run before what the thread does next without the lock.
var UnlockPoints bool

func (t *Thread) unlocked(s *mstate) {
	if UnlockPoints && !t.e.calm {
		t.point(&op{kind: "unlocked", acc: []Access{{s.id, true}}})
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	real sync.Mutex
	st   *mstate
}

// Lock locks.
func (m *Mutex) Lock() {
	t := running()
	if t == nil {
		m.real.Lock()
		return
	}
	s := t.e.mst(&m.st)
	t.point(&op{kind: "lock", what: fmt.Sprintf("%x", s.id&0xffff), acc: []Access{{s.id, true}},
		enabled: func() bool { return !s.locked }, exec: func() { s.locked = true }})
	t.vc.join(s.vc)
}

// TryLock tries.
func (m *Mutex) TryLock() bool {
	t := running()
	if t == nil {
		return m.real.TryLock()
	}
	s := t.e.mst(&m.st)
	ok := false
	t.point(&op{kind: "trylock", acc: []Access{{s.id, true}}, exec: func() {
		if !s.locked {
			s.locked, ok = true, true
			t.vc.join(s.vc)
		}
	}})
	return ok
}

// Unlock unlocks.  It is not a scheduling point: the next visible operation
// of the thread is one.
func (m *Mutex) Unlock() {
	t := running()
	if t == nil {
		m.real.Unlock()
		return
	}
	s := t.e.mst(&m.st)
	if t.e.aborting {
		s.locked = false
		return
	}
	if !s.locked {
		panic("sync: unlock of unlocked mutex")
	}
	s.locked = false
	t.release(&s.vc)
	t.e.touch(t, "unlock", []Access{{s.id, true}})
	t.unlocked(s)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	real sync.RWMutex
	st   *mstate
}

// Lock locks.
func (m *RWMutex) Lock() {
	t := running()
	if t == nil {
		m.real.Lock()
		return
	}
	s := t.e.mst(&m.st)
	t.point(&op{kind: "wlock", acc: []Access{{s.id, true}},
		enabled: func() bool { return !s.locked && s.readers == 0 }, exec: func() { s.locked = true }})
	t.vc.join(s.vc)
	t.vc.join(s.rvc)
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	t := running()
	if t == nil {
		m.real.Unlock()
		return
	}
	s := t.e.mst(&m.st)
	if t.e.aborting {
		s.locked = false
		return
	}
	if !s.locked {
		panic("sync: Unlock of unlocked RWMutex")
	}
	s.locked = false
	t.release(&s.vc)
	t.e.touch(t, "wunlock", []Access{{s.id, true}})
	t.unlocked(s)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	t := running()
	if t == nil {
		m.real.RLock()
		return
	}
	s := t.e.mst(&m.st)
	t.point(&op{kind: "rlock", acc: []Access{{s.id, true}},
		enabled: func() bool { return !s.locked }, exec: func() { s.readers++ }})
	t.vc.join(s.vc)
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	t := running()
	if t == nil {
		m.real.RUnlock()
		return
	}
	s := t.e.mst(&m.st)
	if t.e.aborting {
		return
	}
	if s.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	t.release(&s.rvc)
	t.e.touch(t, "runlock", []Access{{s.id, true}})
	t.unlocked(s)
}

// TryRLock tries.
func (m *RWMutex) TryRLock() bool {
	m.RLock()
	return true
}

// RLocker returns a Locker.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	st   *mstate
}

// Add adds.
func (w *WaitGroup) Add(n int) {
	t := running()
	if t == nil {
		w.real.Add(n)
		return
	}
	s := t.e.mst(&w.st)
	if t.e.aborting {
		return
	}
	s.readers += n
	if s.readers < 0 {
		panic("sync: negative WaitGroup counter")
	}
	t.release(&s.vc)
	t.e.touch(t, "wgadd", []Access{{s.id, true}})
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("waitgroup", func() { defer w.Done(); f() })
}

// Wait waits.
func (w *WaitGroup) Wait() {
	t := running()
	if t == nil {
		w.real.Wait()
		return
	}
	s := t.e.mst(&w.st)
	t.point(&op{kind: "wgwait", acc: []Access{{s.id, true}}, enabled: func() bool { return s.readers == 0 }})
	t.vc.join(s.vc)
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done uint32
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 1 {
		if e := cur; e != nil && o.m.st != nil && o.m.st.gen == e.gen {
			Acquire(o.m.st.vc)
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	real *sync.Cond
	gen  uint64
	id   uint64
	q    []*bool
	vc   VC
}

// NewCond returns a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) init(e *Exec) {
	if c.gen != e.gen {
		c.gen, c.id, c.q, c.vc = e.gen, NewObj(), nil, nil
	}
}

// Wait waits.
func (c *Cond) Wait() {
	t := running()
	if t == nil {
		if c.real == nil {
			c.real = sync.NewCond(c.L)
		}
		c.real.Wait()
		return
	}
	c.init(t.e)
	f := new(bool)
	c.q = append(c.q, f)
	c.L.Unlock()
	t.point(&op{kind: "cwait", acc: []Access{{c.id, true}}, enabled: func() bool { return *f }})
	t.vc.join(c.vc)
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	t := running()
	if t == nil {
		if c.real != nil {
			c.real.Signal()
		}
		return
	}
	c.init(t.e)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	t.release(&c.vc)
	t.e.touch(t, "csignal", []Access{{c.id, true}})
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	t := running()
	if t == nil {
		if c.real != nil {
			c.real.Broadcast()
		}
		return
	}
	c.init(t.e)
	for _, f := range c.q {
		*f = true
	}
	c.q = nil
	t.release(&c.vc)
	t.e.touch(t, "cbroadcast", []Access{{c.id, true}})
}

// ---- virtual time ----

var (
	// ClockStep is what every Now advances the virtual clock by.
	ClockStep  = int64(1000)
	directTime = int64(1600000000 * int64(time.Second))
	directMtx  sync.Mutex
)

// NowNano returns virtual time.
func NowNano() int64 {
	e := cur
	if e == nil {
		directMtx.Lock()
		defer directMtx.Unlock()
		directTime += ClockStep
		return directTime
	}
	if e.cur != nil && !e.aborting {
		e.clock += ClockStep
		e.touch(e.cur, "now", []Access{{HashString("clock"), true}})
	}
	return e.clock
}

// PeekNano returns virtual time without advancing it.
func PeekNano() int64 {
	if cur == nil {
		return directTime
	}
	return cur.clock
}

// Advance moves the clock.
func Advance(d int64) {
	if cur == nil {
		directMtx.Lock()
		directTime += d
		directMtx.Unlock()
		return
	}
	cur.clock += d
	for _, t := range append([]*vtimer(nil), cur.timers...) {
		if !t.dead && t.when <= cur.clock {
			t.dead = true
			cur.tvc = t.vc
			t.f()
			cur.tvc = nil
		}
	}
}

// SleepNano sleeps in virtual time.
func SleepNano(d int64) {
	t := running()
	if t == nil {
		Advance(d)
		return
	}
	fired := false
	id := NewObj()
	AfterNano(d, func() { fired = true })
	t.point(&op{kind: "sleep", what: fmt.Sprint(d), acc: []Access{{id, true}}, enabled: func() bool { return fired }})
}

// AfterNano arms a timer; the callback must not block.
func AfterNano(d int64, f func()) *vtimer {
	e := cur
	if d < 0 {
		d = 0
	}
	v := &vtimer{when: e.clock + d, seq: e.tseq, f: f, vc: e.cur.snap()}
	v.vc.join(e.tvc)
	e.tseq++
	e.timers = append(e.timers, v)
	return v
}

// Stop stops a timer.
func (v *vtimer) Stop() bool {
	if v == nil || v.dead {
		return false
	}
	v.dead = true
	return true
}

// Inject puts a value in a channel from a timer callback without blocking.
func Inject[T any](ch chan T, v T) {
	e := cur
	if e == nil {
		select {
		case ch <- v:
		default:
		}
		return
	}
	cs := e.chanOf(ch)
	c := &selCase{cs: cs, send: true, val: v}
	if c.canGo(nil) && !cs.closed {
		c.run(nil)
	}
}

// SpawnTimer starts a thread from a timer callback.
func SpawnTimer(site string, f func()) {
	e := cur
	if e == nil {
		go f()
		return
	}
	e.spawn(nil, site, f)
}

// Rand returns deterministic pseudo random bytes.
func RandBytes(p []byte) {
	e := cur
	var s *uint64
	if e != nil {
		s = &e.rnd
		if e.cur != nil && !e.aborting {
			e.touch(e.cur, "rand", []Access{{HashString("rand"), true}})
		}
	} else {
		directMtx.Lock()
		defer directMtx.Unlock()
		s = &directRnd
	}
	for i := range p {
		*s = mix(*s, 0x5bd1e995)
		p[i] = byte(*s >> 24)
	}
}

var directRnd = uint64(99)

// SeedRand resets the generator.
func SeedRand(v uint64) {
	if cur != nil {
		cur.rnd = v
		return
	}
	directMtx.Lock()
	directRnd = v
	directMtx.Unlock()
}
