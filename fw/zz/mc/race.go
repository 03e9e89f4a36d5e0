//go:build go1.21

package mc

import (
	"fmt"
	"unsafe"
)

// The happens before order of an execution, as Go's memory model defines it
// (plus: bytes written to a connection come before they are read), is tracked
// with vector clocks.  Two unordered accesses to one map, one of them a write,
// make the Go runtime end the process under some schedule: "concurrent map
// writes".  Looking at the order finds them in whatever schedule is explored.

// VC is a vector clock.
type VC []uint32

func (a *VC) join(b VC) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, v := range b {
		if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}

func (t *Thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// release makes everything t did so far visible through c.
func (t *Thread) release(c *VC) {
	if t == nil {
		return
	}
	c.join(t.vc)
	t.tick()
}

// snap returns a copy of t's clock.
func (t *Thread) snap() VC {
	if t == nil {
		return nil
	}
	c := append(VC(nil), t.vc...)
	t.tick()
	return c
}

// Release orders what the running thread did before whoever acquires c.
func Release(c *VC) { running().release(c) }

// Acquire is the other side of Release.
func Acquire(c VC) {
	if t := running(); t != nil {
		t.vc.join(c)
	}
}

// Var is a scheduling point at a use of a shared variable.
func Var(name string) {
	if t := running(); t != nil && !t.e.aborting {
		Point("var", name, Access{HashString("var " + name), true})
	}
}

type racc struct {
	tid  int
	clk  uint32
	site string
}

type rstate struct {
	keep interface{} // so that the address stays taken
	w    racc
	r    []racc
}

func (e *Exec) access(p unsafe.Pointer, keep func() interface{}, what string, write bool, site string) {
	t := e.cur
	// the first thread is the harness
	if p == nil || t == nil || t.id == 0 || e.aborting {
		return
	}
	s := e.races[p]
	if s == nil {
		if e.races == nil {
			e.races = map[unsafe.Pointer]*rstate{}
		}
		s = &rstate{keep: keep(), w: racc{tid: -1}}
		e.races[p] = s
	}
	before := func(a racc) bool {
		return a.tid == t.id || e.threads[a.tid].killed || a.tid < len(t.vc) && a.clk <= t.vc[a.tid]
	}
	race := func(a racc, by string) {
		if what == "a map" {
			what = fmt.Sprintf("a %T", s.keep)
		}
		Fail("%s is used by two threads at once and nothing keeps them apart: %s at %s, %s at %s", what, by, a.site,
			map[bool]string{false: "read", true: "written"}[write], site)
	}
	if s.w.tid >= 0 && !before(s.w) {
		race(s.w, "written")
		return
	}
	me := racc{t.id, t.vc[t.id], site}
	if !write {
		for i := range s.r {
			if s.r[i].tid == t.id {
				s.r[i] = me
				return
			}
		}
		s.r = append(s.r, me)
		return
	}
	for _, a := range s.r {
		if !before(a) {
			race(a, "read")
			return
		}
	}
	s.r, s.w = s.r[:0], me
}

// MapR notes that m is read.
func MapR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if e := cur; e != nil && m != nil {
		e.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, "a map", false, site)
	}
	return m
}

// MapW notes that m is changed.
func MapW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if e := cur; e != nil && m != nil {
		e.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), func() interface{} { return m }, "a map", true, site)
	}
	return m
}

// FieldR and FieldW are the same for a field.
func FieldR[T any](p *T, site string) *T {
	if e := cur; e != nil && p != nil {
		e.access(unsafe.Pointer(p), func() interface{} { return p }, "a field", false, site)
	}
	return p
}

func FieldW[T any](p *T, site string) *T {
	if e := cur; e != nil && p != nil {
		e.access(unsafe.Pointer(p), func() interface{} { return p }, "a field", true, site)
	}
	return p
}
