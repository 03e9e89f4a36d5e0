//go:build go1.21

// Package vsecretbox wraps nacl/secretbox and can record what is sealed.
package vsecretbox

import "golang.org/x/crypto/nacl/secretbox"

const Overhead = secretbox.Overhead

// OnSeal, when set, sees every sealing.
var OnSeal func(key *[32]byte, nonce *[24]byte, msg []byte)

func Seal(out, message []byte, nonce *[24]byte, key *[32]byte) []byte {
	if OnSeal != nil {
		OnSeal(key, nonce, message)
	}
	return secretbox.Seal(out, message, nonce, key)
}

func Open(out, box []byte, nonce *[24]byte, key *[32]byte) ([]byte, bool) {
	return secretbox.Open(out, box, nonce, key)
}
