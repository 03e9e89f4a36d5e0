//go:build go1.21

// Package vsync stands in for package sync.
package vsync

import (
	"sync"

	"github.com/companyzero/zkc/zz/mc"
)

type Mutex = mc.Mutex
type RWMutex = mc.RWMutex
type WaitGroup = mc.WaitGroup
type Once = mc.Once
type Cond = mc.Cond

func NewCond(l sync.Locker) *Cond { return mc.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
