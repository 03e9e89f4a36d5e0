//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"syscall"

	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vtime"
)

var clock int64

// fresh resets every environment seam.
func fresh() *vfs.FS {
	clock = 1600000000000000000
	vtime.Hook = func() (int64, bool) { clock += 1000000; return clock, true }
	vrand.Hook = nil
	mc.MapDesc = false
	return vfs.Reset()
}

// seqs enumerates every sequence of length 0..depth over n operations in
// shortest-first order and calls f for those that belong to this worker.
func seqs(c *mc.Ctx, n, depth int, f func(s []int) bool) {
	for d := 0; d <= depth; d++ {
		s := make([]int, d)
		i := 0
		for {
			if c.Mine(i) && !f(append([]int(nil), s...)) {
				return
			}
			i++
			k := d - 1
			for k >= 0 {
				s[k]++
				if s[k] < n {
					break
				}
				s[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
		if c.Expired() {
			return
		}
	}
}

// outcome of one file system fault plan: the k-th operation fails.
type faultPlan struct {
	at    map[int]bool
	n     int
	hit   []string
	short bool
}

var errDisk = syscall.Errno(syscall.ENOSPC)

func (p *faultPlan) install(f *vfs.FS) {
	f.Fault = func(op, path string) error {
		p.n++
		if p.at[p.n-1] {
			p.hit = append(p.hit, op+" "+path)
			return errDisk
		}
		return nil
	}
	f.Short = func(op, path string, n int) int {
		if p.short {
			return n / 2
		}
		return 0
	}
}

func (p *faultPlan) String() string { return fmt.Sprintf("failing %v short=%v", p.hit, p.short) }

// faults runs f once per single failing operation (and per pair when pairs is
// set), with nothing or half of a failing write reaching the disk.
func faults(c *mc.Ctx, pairs bool, f func(p *faultPlan) bool) {
	one := func(at ...int) (int, bool) {
		var n int
		for _, short := range []bool{false, true} {
			p := &faultPlan{at: map[int]bool{}, short: short}
			for _, k := range at {
				p.at[k] = true
			}
			if !f(p) {
				return 0, false
			}
			n = p.n
			if len(p.hit) < len(at) {
				return n, false
			}
		}
		return n, true
	}
	for k := 0; k < 5000; k++ {
		_, ok := one(k)
		if !ok {
			break
		}
		if pairs {
			for j := k + 1; j < 5000; j++ {
				if _, ok := one(k, j); !ok {
					break
				}
				if c.Expired() {
					return
				}
			}
		}
		if c.Expired() {
			return
		}
	}
}

var _ = errors.New

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
