//go:build go1.21

// Package vscrypt remembers results of scrypt, which is a pure function.
package vscrypt

import (
	"fmt"

	"golang.org/x/crypto/scrypt"
)

var memo = map[string][]byte{}

// Fast makes derivation cheap: a different function, which still depends on
// all parameters.
var Fast bool

// Key is scrypt.Key.
func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	k := fmt.Sprintf("%d.%d.%d.%d.%q.%q", N, r, p, keyLen, password, salt)
	if v := memo[k]; v != nil {
		return append([]byte(nil), v...), nil
	}
	var v []byte
	var err error
	if Fast {
		v, err = scrypt.Key([]byte(k), salt, 2, 1, 1, keyLen)
	} else {
		v, err = scrypt.Key(password, salt, N, r, p, keyLen)
	}
	if err == nil {
		memo[k] = append([]byte(nil), v...)
	}
	return v, err
}
