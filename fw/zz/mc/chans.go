//go:build go1.21

package mc

import (
	"fmt"
	"reflect"
)

type chanState struct {
	ref    interface{}
	id     uint64
	cap    int
	buf    []interface{}
	closed bool
	vcs    []VC      // of the values in buf
	rvcs   []VC      // of the receives that made room for sends to come
	nsend  int
	cvc    VC        // of the close
	sendq  []*waiter // in announce order
	recvq  []*waiter
	nilch  bool
}

// waiter is a pending operation on a channel.
type waiter struct {
	o    *op
	c    *selCase
	idx  int
	dead bool
}

type selCase struct {
	cs   *chanState
	send bool
	val  interface{}
	// results
	got interface{}
	ok  bool
	w   *waiter
}

func (e *Exec) chanOf(ch interface{}) *chanState {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	cs := e.chans[p]
	if cs == nil {
		cs = &chanState{ref: ch, id: NewObj(), cap: v.Cap()}
		// adopt what was buffered before the execution started
		if v.Type().ChanDir()&reflect.RecvDir != 0 {
			for {
				x, ok := v.TryRecv()
				if !x.IsValid() {
					break
				}
				if !ok {
					cs.closed = true
					break
				}
				cs.buf = append(cs.buf, x.Interface())
				cs.vcs = append(cs.vcs, nil)
				cs.nsend++
			}
		}
		e.chans[p] = cs
	}
	return cs
}

func live(q []*waiter) []*waiter {
	n := q[:0]
	for _, w := range q {
		if !w.dead && !w.o.done {
			n = append(n, w)
		}
	}
	return n
}

func (c *selCase) canGo(self *op) bool {
	cs := c.cs
	if cs == nil {
		return false
	}
	if c.send {
		if cs.closed || len(cs.buf) < cs.cap {
			return true
		}
		if cs.cap > 0 {
			return false
		}
		cs.recvq = live(cs.recvq)
		for _, w := range cs.recvq {
			if w.o != self {
				return true
			}
		}
		return false
	}
	if cs.closed || len(cs.buf) > 0 {
		return true
	}
	if cs.cap > 0 {
		return false
	}
	cs.sendq = live(cs.sendq)
	for _, w := range cs.sendq {
		if w.o != self {
			return true
		}
	}
	return false
}

func (c *selCase) run(self *op) {
	cs := c.cs
	if c.send {
		if cs.closed {
			panic("send on closed channel")
		}
		if cs.cap > 0 {
			// a waiting receiver takes it from the buffer
			cs.buf = append(cs.buf, c.val)
			cs.nsend++
			if self == nil {
				cs.vcs = append(cs.vcs, cur.tvc)
				return
			}
			if cs.nsend > cs.cap && len(cs.rvcs) > 0 {
				self.tid.vc.join(cs.rvcs[0])
				cs.rvcs = cs.rvcs[1:]
			}
			cs.vcs = append(cs.vcs, self.tid.snap())
			return
		}
		cs.recvq = live(cs.recvq)
		for _, w := range cs.recvq {
			if w.o != self {
				w.c.got, w.c.ok = c.val, true
				meet(self, w.o)
				w.o.complete(w.idx)
				return
			}
		}
		panic("mc: send not possible")
	}
	if len(cs.buf) > 0 {
		c.got, c.ok = cs.buf[0], true
		cs.buf = append([]interface{}(nil), cs.buf[1:]...)
		if self != nil {
			self.tid.vc.join(cs.vcs[0])
			cs.rvcs = append(cs.rvcs, self.tid.snap())
		}
		cs.vcs = cs.vcs[1:]
		return
	}
	cs.sendq = live(cs.sendq)
	for _, w := range cs.sendq {
		if w.o != self {
			c.got, c.ok = w.c.val, true
			meet(self, w.o)
			w.o.complete(w.idx)
			return
		}
	}
	if cs.closed {
		c.got, c.ok = nil, false
		if self != nil {
			self.tid.vc.join(cs.cvc)
		}
		return
	}
	panic("mc: receive not possible")
}

// meet orders both ends of a rendezvous.
func meet(a, b *op) {
	if a == nil || b == nil {
		if b != nil {
			b.tid.vc.join(cur.tvc)
		}
		return
	}
	x, y := a.tid.snap(), b.tid.snap()
	a.tid.vc.join(y)
	b.tid.vc.join(x)
}

// complete marks a waiting operation as done through case idx.
func (o *op) complete(idx int) {
	o.done = true
	o.sel = idx
	// the partner's history is now part of this operation
}

func sel(t *Thread, kind, what string, cases []*selCase, def bool) int {
	o := &op{kind: kind, what: what, sel: -1}
	enroll := func() {
		for i, c := range cases {
			if c.cs == nil {
				continue
			}
			o.acc = append(o.acc, Access{c.cs.id, true})
			w := &waiter{o: o, c: c, idx: i}
			c.w = w
			if c.send {
				c.cs.sendq = append(c.cs.sendq, w)
			} else {
				c.cs.recvq = append(c.cs.recvq, w)
			}
		}
	}
	for _, c := range cases {
		if def && c.cs != nil {
			o.acc = append(o.acc, Access{c.cs.id, true})
		}
	}
	if !def {
		// a select with a default never waits, so partners cannot see it
		enroll()
		o.enabled = func() bool {
			for _, c := range cases {
				if c.canGo(o) {
					return true
				}
			}
			return false
		}
	}
	o.exec = func() {
		var can []int
		for i, c := range cases {
			if c.canGo(o) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			o.sel = -1
			return
		}
		k := 0
		if len(can) > 1 {
			k = choose(len(can), 0, "select "+what)
		}
		o.sel = can[k]
		cases[o.sel].run(o)
	}
	defer func() {
		for _, c := range cases {
			if c.w != nil {
				c.w.dead = true
			}
		}
	}()
	t.point(o)
	return o.sel
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		t := running()
		if t == nil {
			ch <- v
			return
		}
		c := &selCase{cs: t.e.chanOf2(ch), send: true, val: v}
		sel(t, "send", t.e.chname(ch), []*selCase{c}, false)
	}
}

func (e *Exec) chname(ch interface{}) string {
	if !e.keep {
		return ""
	}
	return fmt.Sprintf("%T", ch)
}

// chanOf2 handles directional channels.
func (e *Exec) chanOf2(ch interface{}) *chanState { return e.chanOf(ch) }

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	t := running()
	if t == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &selCase{cs: t.e.chanOf2(ch)}
	sel(t, "recv", t.e.chname(ch), []*selCase{c}, false)
	var z T
	if c.got == nil {
		return z, c.ok
	}
	return c.got.(T), c.ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	t := running()
	if t == nil {
		close(ch)
		return
	}
	cs := t.e.chanOf2(ch)
	if cs == nil {
		panic("close of nil channel")
	}
	t.point(&op{kind: "close", what: t.e.chname(ch), acc: []Access{{cs.id, true}}, exec: func() {
		if cs.closed {
			panic("close of closed channel")
		}
		cs.closed = true
		t.release(&cs.cvc)
	}})
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	t := running()
	if t == nil {
		return len(ch)
	}
	cs := t.e.chanOf2(ch)
	if cs == nil {
		return 0
	}
	n := 0
	t.point(&op{kind: "len", acc: []Access{{cs.id, false}}, exec: func() { n = len(cs.buf) }})
	return n
}

// SelCase is implemented by the typed cases.
type SelCase interface {
	dir() reflect.SelectCase
	mk(e *Exec) *selCase
	set(v reflect.Value, ok bool)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch <-chan T
	c  *selCase
	v  T
	ok bool
}

// CR builds a receive case.
func CR[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (r *RCase[T]) dir() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RCase[T]) mk(e *Exec) *selCase {
	r.c = &selCase{cs: e.chanOf2(r.ch)}
	return r.c
}
func (r *RCase[T]) set(v reflect.Value, ok bool) {
	r.ok = ok
	if v.IsValid() {
		if x, k := v.Interface().(T); k {
			r.v = x
		}
	}
}

// Val returns the received value.
func (r *RCase[T]) Val() T {
	if r.c != nil {
		var z T
		if r.c.got == nil {
			return z
		}
		return r.c.got.(T)
	}
	return r.v
}

// Val2 returns the received value and ok.
func (r *RCase[T]) Val2() (T, bool) {
	if r.c != nil {
		return r.Val(), r.c.ok
	}
	return r.v, r.ok
}

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// CS builds a send case.
func CS[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}

func (s *SCase[T]) dir() reflect.SelectCase {
	v := reflect.ValueOf(&s.v).Elem()
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: v}
}
func (s *SCase[T]) mk(e *Exec) *selCase {
	return &selCase{cs: e.chanOf2(s.ch), send: true, val: s.v}
}
func (s *SCase[T]) set(v reflect.Value, ok bool) {}

// Select is the select statement; it returns the index of the chosen case or
// -1 for default.
func Select(def bool, cases ...SelCase) int {
	t := running()
	if t == nil {
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.dir())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].set(v, ok)
		return i
	}
	sc := make([]*selCase, len(cases))
	for i, c := range cases {
		sc[i] = c.mk(t.e)
	}
	return sel(t, "select", "", sc, def)
}

// Forever is select {}.
func Forever() {
	t := running()
	if t == nil {
		select {}
	}
	t.point(&op{kind: "forever", enabled: func() bool { return false }})
}
