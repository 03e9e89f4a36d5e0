//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vrand"
)

// f02: blobs shared under a password open with that password only.
func f02(c *mc.Ctx) {
	fresh()
	blobshare.SetNrp(16, 2, 1)
	datas := [][]byte{nil, {0}, []byte("hello"), bytes.Repeat([]byte{0xa5}, 100)}
	pws := [][]byte{nil, []byte("a"), []byte("b"), []byte("a\x00"), bytes.Repeat([]byte("p"), 70)}
	n := 0
	for pi, pw := range pws {
		for di, data := range datas {
			n++
			if !c.Mine(n) {
				continue
			}
			seedRand(fmt.Sprint("blob", pi, di))
			in := append([]byte(nil), data...)
			key, salt, err := blobshare.NewKey(append([]byte(nil), pw...))
			if err != nil {
				c.Violate("newkey", nil, "NewKey: %v", err)
				continue
			}
			enc, nonce, err := blobshare.Encrypt(in, key)
			if err != nil || !bytes.Equal(in, data) {
				c.Violate("encrypt", nil, "Encrypt: %v", err)
				continue
			}
			enc2, nonce2, _ := blobshare.Encrypt(in, key)
			if *nonce == *nonce2 || bytes.Equal(enc, enc2) {
				c.Violate("nonce", nil, "two blobs under one key share a nonce")
			}
			key2, salt2, _ := blobshare.NewKey(append([]byte(nil), pw...))
			if *salt == *salt2 || *key == *key2 {
				c.Violate("salt", nil, "two keys from one password are equal")
			}
			packed := blobshare.PackSaltNonce(salt, nonce, enc)
			open := func(p, pass []byte) (out []byte, err error, panicked string) {
				panicked = mc.Guard(func() {
					s, no, d, e := blobshare.UnpackSaltNonce(p)
					if e != nil {
						err = e
						return
					}
					k, e := blobshare.DeriveKey(pass, s)
					if e != nil {
						err = e
						return
					}
					out, err = blobshare.Decrypt(k, no, d)
				})
				return
			}
			try := func(p, pass []byte, ok bool, what string) {
				out, err, pk := open(p, pass)
				c.Eval(what)
				if pk != "" {
					c.Violate("panic:"+what, len(p), "%s blob (%d bytes): %s", what, len(p), pk)
				} else if ok && (err != nil || !bytes.Equal(out, data)) {
					c.Violate("open", what, "blob %q under %q cannot be opened: %q %v", data, pw, out, err)
				} else if !ok && err == nil {
					c.Violate("forged:"+what, what, "%s blob opened as %q", what, out)
				}
			}
			c.Sample(fmt.Sprintf("%d bytes under a password of %d bytes", len(data), len(pw)))
			try(packed, pw, true, "intact")
			for qi, q := range pws {
				if qi != pi {
					// scrypt's HMAC pads short passwords with zeros, so only
					// differing ones beyond that are distinct
					if bytes.Equal(bytes.TrimRight(q, "\x00"), bytes.TrimRight(pw, "\x00")) {
						continue
					}
					try(packed, q, false, "wrong password")
				}
			}
			for b := 0; b < len(packed)*8; b++ {
				x := append([]byte(nil), packed...)
				x[b/8] ^= 1 << (b % 8)
				try(x, pw, false, "bit flipped")
			}
			for l := 0; l < len(packed); l++ {
				try(packed[:l], pw, false, "truncated")
			}
			try(append(append([]byte(nil), packed...), 0), pw, false, "extended")
			// the variant without a salt
			pn := blobshare.PackNonce(nonce, enc)
			for l := 0; l <= len(pn); l++ {
				var out []byte
				var err error
				pk := mc.Guard(func() {
					no, d, e := blobshare.UnpackNonce(pn[:l])
					if err = e; e == nil {
						out, err = blobshare.Decrypt(key, no, d)
					}
				})
				if pk != "" || (err == nil) != (l == len(pn)) || err == nil && !bytes.Equal(out, data) {
					c.Violate("nonce blob", l, "blob of %d of %d bytes: %q %v %s", l, len(pn), out, err, pk)
				}
				c.Eval("without salt")
			}
			c.R.Traces++
		}
	}
	vrand.Hook = nil
	if c.Worker == 0 {
		drawn(c, "key of a blob", 32, func(io.Reader) string {
			key, salt, err := blobshare.NewKey([]byte("p"))
			return fmt.Sprintf("%x %x %v", key, salt, err)
		})
		drawn(c, "blob", 24, func(io.Reader) string {
			enc, nonce, err := blobshare.Encrypt([]byte("data"), &[32]byte{1})
			return fmt.Sprintf("%x %x %v", enc, nonce, err)
		})
	}
}

func init() {
	mc.Register(&mc.Check{ID: "F02", Level: "exploration", Run: f02, Rule: "one altered blob per case; non-trivial: distinct kinds"})
}
