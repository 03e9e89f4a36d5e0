//go:build go1.21

// Package vsntrup stands for sntrup4591761.  With Fast set keys and
// ciphertexts are made of hashes: what is encapsulated to a public key is
// recovered with its private key, any other ciphertext is refused.  It keeps
// nothing secret.
package vsntrup

import (
	"crypto/sha256"
	"io"

	real "github.com/companyzero/sntrup4591761"
)

// Sizes.
const (
	PublicKeySize  = real.PublicKeySize
	PrivateKeySize = real.PrivateKeySize
	CiphertextSize = real.CiphertextSize
	SharedKeySize  = real.SharedKeySize
)

// Fast replaces the real functions; all keys must be made with it.
var Fast bool

func hash(p ...[]byte) []byte {
	h := sha256.New()
	for _, b := range p {
		h.Write(b)
	}
	return h.Sum(nil)
}

func fill(dst []byte, seed []byte) {
	for i := 0; len(dst) > 0; i++ {
		n := copy(dst, hash(seed, []byte{byte(i)}))
		dst = dst[n:]
	}
}

// GenerateKey makes a key pair.
func GenerateKey(s io.Reader) (*[PublicKeySize]byte, *[PrivateKeySize]byte, error) {
	if !Fast {
		return real.GenerateKey(s)
	}
	pk, sk := new([PublicKeySize]byte), new([PrivateKeySize]byte)
	if _, err := io.ReadFull(s, sk[:32]); err != nil {
		return nil, nil, err
	}
	fill(pk[:], hash([]byte("pk"), sk[:32]))
	copy(sk[PrivateKeySize-PublicKeySize:], pk[:])
	return pk, sk, nil
}

func wrap(r, pk []byte) (*[CiphertextSize]byte, *[SharedKeySize]byte) {
	c, k := new([CiphertextSize]byte), new([SharedKeySize]byte)
	m := hash([]byte("mask"), pk)
	for i := range m {
		c[i] = m[i] ^ r[i]
	}
	fill(c[32:], hash([]byte("ct"), r, pk))
	copy(k[:], hash([]byte("key"), r, pk))
	return c, k
}

// Encapsulate makes a shared key.
func Encapsulate(s io.Reader, pk *[PublicKeySize]byte) (*[CiphertextSize]byte, *[SharedKeySize]byte, error) {
	if !Fast {
		return real.Encapsulate(s, pk)
	}
	r := make([]byte, 32)
	if _, err := io.ReadFull(s, r); err != nil {
		return nil, nil, err
	}
	c, k := wrap(r, pk[:])
	return c, k, nil
}

// Decapsulate recovers a shared key.
func Decapsulate(c *[CiphertextSize]byte, sk *[PrivateKeySize]byte) (*[SharedKeySize]byte, int) {
	if !Fast {
		return real.Decapsulate(c, sk)
	}
	pk := sk[PrivateKeySize-PublicKeySize:]
	r := hash([]byte("mask"), pk)
	for i := range r {
		r[i] ^= c[i]
	}
	d, k := wrap(r, pk)
	if *d != *c {
		return new([SharedKeySize]byte), 0
	}
	return k, 1
}
