//go:build go1.21

// Package vrand stands in for crypto/rand: a deterministic stream.
package vrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/companyzero/zkc/zz/mc"
)

type reader struct{}

// Hook may replace the random stream.
var Hook func(p []byte) bool

func (reader) Read(p []byte) (int, error) {
	if Hook != nil && Hook(p) {
		return len(p), nil
	}
	mc.RandBytes(p)
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return rand.Prime(r, bits) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
