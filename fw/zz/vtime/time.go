//go:build go1.21

// Package vtime stands in for package time with a virtual clock.
package vtime

import (
	"time"

	"github.com/companyzero/zkc/zz/mc"
)

// Hook, when set, supplies the time.
var Hook func() (int64, bool)

func Now() time.Time {
	if Hook != nil {
		if v, ok := Hook(); ok {
			return time.Unix(0, v).UTC()
		}
	}
	return time.Unix(0, mc.NowNano()).UTC()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { mc.SleepNano(int64(d)) }

type stopper interface{ Stop() bool }

// Timer is a virtual timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	s  stopper
	r  *time.Timer
	f  func()
}

func arm(t *Timer, d time.Duration) {
	if mc.Active() == nil {
		// outside executions virtual timers never fire by themselves
		return
	}
	if t.f != nil {
		f := t.f
		t.s = mc.AfterNano(int64(d), func() { mc.SpawnTimer("AfterFunc", f) })
		return
	}
	t.s = mc.AfterNano(int64(d), func() { mc.Inject(t.c, time.Unix(0, mc.PeekNano())) })
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	arm(t, d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	arm(t, d)
	return t
}
func (t *Timer) Stop() bool { return t.s != nil && t.s.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	a := t.Stop()
	arm(t, d)
	return a
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is a virtual ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	s    stopper
	d    time.Duration
	dead bool
	left int
}

// MaxTicks bounds the ticks of one ticker in an execution.
var MaxTicks = 3

func (t *Ticker) arm() {
	if mc.Active() == nil {
		return
	}
	if t.left <= 0 {
		return
	}
	t.left--
	t.s = mc.AfterNano(int64(t.d), func() {
		if t.dead {
			return
		}
		mc.Inject(t.c, time.Unix(0, mc.PeekNano()))
		t.arm()
	})
}
func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, left: MaxTicks}
	t.arm()
	return t
}
func (t *Ticker) Stop() {
	t.dead = true
	if t.s != nil {
		t.s.Stop()
	}
}
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.dead = false
	t.d = d
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
