//go:build go1.22

package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"

	"github.com/companyzero/sntrup4591761"
	cli "github.com/companyzero/zkc/session"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	srv "github.com/companyzero/zkc/zz/session2"
	"github.com/companyzero/zkc/zz/snap"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vsecretbox"
	"golang.org/x/crypto/nacl/secretbox"
)

const kxMax = 1 << 20

var sid [4]*zkidentity.FullIdentity // client, server, mallory, other client

func sids() {
	for i := range sid {
		if sid[i] == nil {
			seedRand(fmt.Sprint("session identity ", i))
			id, err := zkidentity.New("n", "n")
			if err != nil {
				panic(err)
			}
			sid[i] = id
			vrand.Hook = nil
		}
	}
}

// frame is one handshake or record message including its framing.
type frame []byte

func readFrame(r io.Reader, raw bool) (frame, error) {
	if raw {
		b := make([]byte, (sntrup4591761.CiphertextSize+3)/4*4)
		_, err := io.ReadFull(r, b)
		return b, err
	}
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 1<<24 {
		return nil, errors.New("huge frame")
	}
	b := make([]byte, 4+(n+3)/4*4)
	copy(b, h[:])
	_, err := io.ReadFull(r, b[4:])
	return b, err
}

func payload(f frame, raw bool) []byte {
	if raw {
		return f[:sntrup4591761.CiphertextSize]
	}
	n := int(binary.BigEndian.Uint32(f))
	if n > len(f)-4 {
		n = len(f) - 4
	}
	return f[4 : 4+n]
}

func mkFrame(p []byte, raw bool) frame {
	if raw {
		b := make([]byte, (sntrup4591761.CiphertextSize+3)/4*4)
		copy(b, p)
		return b
	}
	b := make([]byte, 4+(len(p)+3)/4*4)
	binary.BigEndian.PutUint32(b, uint32(len(p)))
	copy(b[4:], p)
	return b
}

// hs is the outcome of one handshake.
type hs struct {
	c          *cli.KX
	s          *srv.KX
	cerr, serr error
	cdone      bool
	sdone      bool
	frames     [2][]frame // as sent by the client, the server
	recvd      [2][]frame // as forwarded
	cconn      *mcnet.Conn
	sconn      *mcnet.Conn
	msg        string
}

// mitm decides what is forwarded when frame i of direction dir passes.
type mitm func(h *hs, dir, i int, f frame) []frame

// shake runs a handshake between the real client and the real server with m
// on the wire. believed is the server key the client expects.
func shake(seed string, client, server *zkidentity.FullIdentity, believed *zkidentity.PublicIdentity, m mitm, after func(h *hs)) *hs {
	h := &hs{}
	d := &det{}
	d.seed("%s", seed)
	vrand.Hook = func(p []byte) bool { d.Read(p); return true }
	defer func() { vrand.Hook = nil }()
	h.msg = mc.RunOnce(func() {
		srv.Init()
		c, mc1 := mcnet.Pair("client", "mitm-c", 0)
		ms, s := mcnet.Pair("mitm-s", "server", 0)
		h.cconn, h.sconn = c, s
		h.c = &cli.KX{Conn: c, MaxMessageSize: kxMax, OurPublicKey: &client.Public.Key, OurPrivateKey: &client.PrivateKey, TheirPublicKey: &believed.Key}
		h.s = &srv.KX{Conn: s, MaxMessageSize: kxMax, OurPublicKey: &server.Public.Key, OurPrivateKey: &server.PrivateKey}
		mc.Go("client", func() {
			h.cerr = h.c.Initiate()
			h.cdone = true
			if h.cerr != nil {
				c.Close()
			}
		})
		mc.Go("server", func() {
			h.serr = h.s.Respond()
			h.sdone = true
			if h.serr != nil {
				s.Close()
			}
		})
		proxy := func(dir int, in, out *mcnet.Conn) {
			for i := 0; ; i++ {
				raw := dir == 0 && i == 0
				f, err := readFrame(in, raw)
				if err != nil {
					out.Close()
					return
				}
				fs := []frame{f}
				if i < 5 {
					h.frames[dir] = append(h.frames[dir], f)
				}
				if m != nil && i < 5 {
					fs = m(h, dir, i, f)
				}
				for _, g := range fs {
					if i < 5 {
						h.recvd[dir] = append(h.recvd[dir], g)
					}
					if _, err := out.Write(g); err != nil {
						in.Close()
						return
					}
				}
			}
		}
		mc.Go("c2s", func() { proxy(0, mc1, ms) })
		mc.Go("s2c", func() { proxy(1, ms, mc1) })
		mc.Quiesce()
		if !h.cdone || !h.sdone {
			// a message was withheld: the connection ends
			mc1.Close()
			ms.Close()
			mc.Quiesce()
		}
		if after != nil && h.cdone && h.sdone {
			after(h)
		}
		c.Close()
		s.Close()
		mc1.Close()
		ms.Close()
		mc.Quiesce()
	})
	return h
}

// agree checks that two ends that both believe in a session really share it.
func agree(h *hs, strict bool) string {
	probe := func(dir int, data string) string {
		var err error
		var got []byte
		if dir == 0 {
			if err = h.c.Write([]byte(data)); err != nil {
				return fmt.Sprintf("client cannot write: %v", err)
			}
			got, err = h.s.Read()
		} else {
			if err = h.s.Write([]byte(data)); err != nil {
				return fmt.Sprintf("server cannot write: %v", err)
			}
			got, err = h.c.Read()
		}
		if err != nil && !strict {
			return ""
		}
		if err != nil {
			return fmt.Sprintf("record (direction %d) cannot be read: %v", dir, err)
		}
		if string(got) != data {
			return fmt.Sprintf("record (direction %d) arrives as %q instead of %q", dir, got, data)
		}
		return ""
	}
	for i, d := range []int{0, 1, 1, 0} {
		if m := probe(d, fmt.Sprint("record", i)); m != "" {
			return m
		}
	}
	return ""
}

// judge evaluates an attacked handshake between client and server.
func judge(h *hs, client, server *zkidentity.FullIdentity, changed bool) string {
	if h.msg != "" {
		return h.msg
	}
	if !h.cdone || !h.sdone {
		return "an end is stuck after the connection was closed"
	}
	if h.cerr == nil && h.serr != nil {
		return fmt.Sprintf("the client completed the handshake but the server did not (%v)", h.serr)
	}
	if h.serr == nil && (h.s.TheirPublicKey == nil || *h.s.TheirPublicKey != client.Public.Key) {
		return "the server authenticated the client as somebody else"
	}
	return ""
}

// e01rotate: the server changes its ephemeral keys while clients connect.
func e01rotate(c *mc.Ctx) {
	A, O, S := sid[0], sid[3], sid[1]
	c.Scenario(&mc.Scenario{
		Name: "ephemeral keys change during a handshake", Bound: c.Pick(1, 2), Shard: true,
		Opt:   mc.Options{FreeSwitchCost: true},
		Setup: func() { vrand.Hook = nil },
		Body: func(x *mc.X) {
			mc.Calm(true)
			srv.Init()
			h := &hs{}
			a, b := mcnet.Pair("client", "server", 0)
			a2, b2 := mcnet.Pair("client2", "server2", 0)
			h.c = &cli.KX{Conn: a, MaxMessageSize: kxMax, OurPublicKey: &A.Public.Key, OurPrivateKey: &A.PrivateKey, TheirPublicKey: &S.Public.Key}
			h.s = &srv.KX{Conn: b, MaxMessageSize: kxMax, OurPublicKey: &S.Public.Key, OurPrivateKey: &S.PrivateKey}
			s2 := &srv.KX{Conn: b2, MaxMessageSize: kxMax, OurPublicKey: &S.Public.Key, OurPrivateKey: &S.PrivateKey}
			mc.Calm(false)
			done := 0
			var err2 error
			mc.Go("server", func() { h.serr = h.s.Respond(); done++ })
			mc.Go("rotate", func() { srv.Init(); done++ })
			mc.Go("server2", func() { err2 = s2.Respond(); done++ })
			mc.Go("client", func() {
				h.cerr = h.c.Initiate()
				done++
				mc.Calm(true)
				// one process makes one connection at a time
				c2 := &cli.KX{Conn: a2, MaxMessageSize: kxMax, OurPublicKey: &O.Public.Key, OurPrivateKey: &O.PrivateKey, TheirPublicKey: &S.Public.Key}
				if err := c2.Initiate(); err != nil {
					mc.Fail("second client: %v", err)
				}
				done++
			})
			mc.Quiesce()
			if done != 5 || h.cerr != nil || h.serr != nil || err2 != nil {
				mc.Fail("handshake during a change of the ephemeral keys fails: %d of 5 done, client %v server %v %v", done, h.cerr, h.serr, err2)
			}
			if m := agree(h, true); m != "" {
				mc.Fail("after a change of the ephemeral keys: %s", m)
			}
			x.Outcome("done")
		},
	})
}

func e01(c *mc.Ctx) {
	sids()
	e01rotate(c)
	A, S, O := sid[0], sid[1], sid[3]
	honest := func(seed string, cl *zkidentity.FullIdentity) *hs {
		var m string
		h := shake(seed, cl, S, &S.Public, nil, func(h *hs) {
			if h.cerr == nil && h.serr == nil {
				m = agree(h, true)
			}
		})
		if h.msg != "" || h.cerr != nil || h.serr != nil || m != "" {
			c.Violate("honest", nil, "undisturbed handshake fails: client %v server %v %s %s", h.cerr, h.serr, m, h.msg)
			return nil
		}
		if msg := judge(h, cl, S, false); msg != "" {
			c.Violate("honest", nil, "undisturbed handshake: %s", msg)
			return nil
		}
		return h
	}
	old := honest("old", A)
	oth := honest("other", O)
	if old == nil || oth == nil {
		return
	}
	n := 0
	attack := func(name string, mm mitm) bool {
		n++
		if !c.Mine(n) {
			return true
		}
		if c.Expired() {
			return false
		}
		var m string
		h := shake("target", A, S, &S.Public, mm, func(h *hs) {
			if h.cerr == nil && h.serr == nil {
				m = agree(h, false)
			}
		})
		c.R.Traces++
		c.Sample(name)
		c.Eval(fmt.Sprintf("client ok=%v server ok=%v", h.cerr == nil, h.serr == nil))
		if msg := judge(h, A, S, true); msg != "" {
			c.Violate("attack:"+msg, name, "%s: %s", name, msg)
			return true
		}
		if m != "" {
			c.Violate("attack:agree", name, "%s: both ends complete but %s", name, m)
			return true
		}
		same := true
		for d := 0; d < 2; d++ {
			for i := range old.frames[d] {
				if i >= len(h.recvd[d]) || i >= len(h.frames[d]) || !bytes.Equal(payload(h.recvd[d][i], d == 0 && i == 0), payload(h.frames[d][i], d == 0 && i == 0)) {
					same = false
				}
			}
		}
		if !same && h.cerr == nil && h.serr == nil {
			c.Violate("attack:unnoticed", name, "%s: a modified handshake completed on both sides", name)
		}
		return true
	}
	at := func(dir, i int, f func(h *hs, f frame) []frame) mitm {
		return func(h *hs, d, j int, fr frame) []frame {
			if d == dir && i == j {
				return f(h, fr)
			}
			return []frame{fr}
		}
	}
	for dir := 0; dir < 2; dir++ {
		for i := range old.frames[dir] {
			raw := dir == 0 && i == 0
			p := payload(old.frames[dir][i], raw)
			nm := fmt.Sprintf("message %d of side %d", i, dir)
			flip := func(off int, bit byte) mitm {
				return at(dir, i, func(h *hs, f frame) []frame {
					q := append([]byte(nil), payload(f, raw)...)
					q[off] ^= bit
					return []frame{mkFrame(q, raw)}
				})
			}
			step := c.Pick(len(p)/12+1, 9)
			offs := []int{1, 2, 15, 16, 17, len(p) - 1}
			for o := 0; o < len(p); o += step {
				offs = append(offs, o)
			}
			for _, o := range offs {
				if o < len(p) && !attack(fmt.Sprintf("%s: byte %d flipped", nm, o), flip(o, byte(1<<(o%8)))) {
					return
				}
			}
			if !raw {
				attack(nm+": withheld", at(dir, i, func(h *hs, f frame) []frame { return nil }))
				for _, cut := range []int{1, 16, len(p) / 2, len(p)} {
					attack(fmt.Sprintf("%s: cut by %d", nm, cut), at(dir, i, func(h *hs, f frame) []frame {
						q := payload(f, raw)
						return []frame{mkFrame(q[:len(q)-cut], raw)}
					}))
				}
				attack(nm+": extended", at(dir, i, func(h *hs, f frame) []frame {
					return []frame{mkFrame(append(append([]byte(nil), payload(f, raw)...), 0), raw)}
				}))
				attack(nm+": huge", at(dir, i, func(h *hs, f frame) []frame { return []frame{{0xff, 0xff, 0xff, 0xf0}} }))
			}
			attack(nm+": doubled", at(dir, i, func(h *hs, f frame) []frame {
				return []frame{f, mkFrame(payload(f, raw), false)}
			}))
			// replaced by a message of this or another session
			for src, o := range []*hs{nil, old, oth} {
				for sd := 0; sd < 2; sd++ {
					for j := 0; j < 5; j++ {
						if o == nil && (sd == dir && j == i) {
							continue
						}
						attack(fmt.Sprintf("%s: replaced by message %d of side %d of session %d", nm, j, sd, src), at(dir, i, func(h *hs, f frame) []frame {
							from := o
							if from == nil {
								from = h
							}
							if j >= len(from.frames[sd]) {
								return nil
							}
							q := payload(from.frames[sd][j], sd == 0 && j == 0)
							if raw && len(q) > sntrup4591761.CiphertextSize {
								q = q[:sntrup4591761.CiphertextSize]
							}
							return []frame{mkFrame(q, raw)}
						}))
					}
				}
			}
			// swapped with the next
			if !raw {
				var held frame
				attack(nm+": swapped with the next", func(h *hs, d, j int, f frame) []frame {
					if d == dir && j == i {
						held = f
						return nil
					}
					if d == dir && j == i+1 {
						return []frame{f, held}
					}
					return []frame{f}
				})
			}
		}
	}
	// the server's ephemeral keys are rotated before message i passes
	for dir := 0; dir < 2; dir++ {
		for i := 0; i < 5; i++ {
			n++
			if !c.Mine(n) {
				continue
			}
			m := "not completed"
			h := shake("target", A, S, &S.Public, at(dir, i, func(h *hs, f frame) []frame {
				mc.Advance(61e9)
				mc.Yield()
				return []frame{f}
			}), func(h *hs) {
				if h.cerr == nil && h.serr == nil {
					m = agree(h, true)
				}
			})
			c.R.Traces++
			c.Eval("key rotation")
			if m != "" || h.msg != "" {
				c.Violate("rotation", []int{dir, i}, "key rotation before message %d of side %d: client %v server %v %s %s", i, dir, h.cerr, h.serr, m, h.msg)
			}
		}
	}
	// from message i on everything comes from another session
	for src, o := range []*hs{old, oth} {
		for dirs := 1; dirs < 4; dirs++ {
			for i := 0; i < 5; i++ {
				attack(fmt.Sprintf("from message %d on replaced by session %d (directions %d)", i, src, dirs), func(h *hs, d, j int, f frame) []frame {
					if dirs&(1<<d) != 0 && j >= i && j < len(o.frames[d]) {
						return []frame{o.frames[d][j]}
					}
					return []frame{f}
				})
			}
		}
	}
	e01liars(c)
}

// ref is an independent implementation of the handshake that can lie.
type ref struct {
	conn       net.Conn
	max        int
	wseq, rseq uint64
	lie        func(step string, b []byte) []byte
	wk, rk     *[32]byte
	step       string
}

func (r *ref) nonce(n uint64) *[24]byte {
	var b [24]byte
	binary.LittleEndian.PutUint64(b[:], n)
	return &b
}

func (r *ref) write(step string, p []byte, k *[32]byte) error {
	if r.lie != nil {
		p = r.lie(step, append([]byte(nil), p...))
	}
	b := secretbox.Seal(nil, p, r.nonce(r.wseq), k)
	r.wseq++
	_, err := r.conn.Write(mkFrame(b, false))
	return err
}

func (r *ref) read(k *[32]byte) ([]byte, error) {
	f, err := readFrame(r.conn, false)
	if err != nil {
		return nil, err
	}
	d, ok := secretbox.Open(nil, payload(f, false), r.nonce(r.rseq), k)
	r.rseq++
	if !ok {
		return nil, errors.New("ref: cannot decrypt")
	}
	return d, nil
}

func rmac(k *[32]byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k[:])
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func rkeys(parts ...*[32]byte) (*[32]byte, *[32]byte) {
	d := sha512.New()
	for _, p := range parts {
		d.Write(p[:])
	}
	k := d.Sum(nil)
	var a, b [32]byte
	copy(a[:], k)
	copy(b[:], k[32:])
	return &a, &b
}

type pkey = [sntrup4591761.PublicKeySize]byte
type skey = [sntrup4591761.PrivateKeySize]byte
type ctxt = [sntrup4591761.CiphertextSize]byte

var errRef = errors.New("ref: handshake failed")

func refDecap(c []byte, sk *skey) (*[32]byte, error) {
	if len(c) != sntrup4591761.CiphertextSize {
		return nil, errRef
	}
	var x ctxt
	copy(x[:], c)
	k, ok := sntrup4591761.Decapsulate(&x, sk)
	if ok != 1 {
		return k, errRef
	}
	return k, nil
}

// initiate talks to a server whose key is their, claiming to own pub.
func (r *ref) initiate(rnd io.Reader, pub *pkey, priv *skey, their *pkey) error {
	epk, esk, err := sntrup4591761.GenerateKey(rnd)
	if err != nil {
		return err
	}
	c1, k1, err := sntrup4591761.Encapsulate(rnd, their)
	if err != nil {
		return err
	}
	x := c1[:]
	if r.lie != nil {
		x = r.lie("c1", append([]byte(nil), x...))
	}
	if _, err := r.conn.Write(mkFrame(x, true)); err != nil {
		return err
	}
	if err := r.write("epk", epk[:], k1); err != nil {
		return err
	}
	b, err := r.read(k1)
	if err != nil {
		return err
	}
	k2, err := refDecap(b, esk)
	if err != nil {
		return err
	}
	b, err = r.read(k2)
	if err != nil {
		return err
	}
	var sepk pkey
	copy(sepk[:], b)
	sp, err := r.read(k2)
	if err != nil {
		return err
	}
	if !hmac.Equal(sp, rmac(k1, epk[:], sepk[:])) {
		return errRef
	}
	c3, k3, err := sntrup4591761.Encapsulate(rnd, &sepk)
	if err != nil {
		return err
	}
	if err := r.write("c3", c3[:], k2); err != nil {
		return err
	}
	if err := r.write("identity", pub[:], k3); err != nil {
		return err
	}
	cp := rmac(k2, sp, pub[:])
	if err := r.write("proof", cp, k3); err != nil {
		return err
	}
	b, err = r.read(k3)
	if err != nil {
		return err
	}
	k4, err := refDecap(b, priv)
	if err != nil && k4 == nil {
		k4 = new([32]byte)
	}
	p, err := r.read(k4)
	if err == nil && !hmac.Equal(p, rmac(k3, cp, their[:])) {
		err = errRef
	}
	r.rk, r.wk = rkeys(k1, k2, k3, k4)
	return err
}

// respond plays the server owning (pub, priv).
func (r *ref) respond(rnd io.Reader, pub *pkey, priv *skey) error {
	epk, esk, err := sntrup4591761.GenerateKey(rnd)
	if err != nil {
		return err
	}
	f, err := readFrame(r.conn, true)
	if err != nil {
		return err
	}
	k1, err := refDecap(payload(f, true), priv)
	if err != nil && k1 == nil {
		return err
	}
	b, err := r.read(k1)
	if err != nil {
		return err
	}
	var cepk pkey
	copy(cepk[:], b)
	c2, k2, err := sntrup4591761.Encapsulate(rnd, &cepk)
	if err != nil {
		return err
	}
	if err := r.write("c2", c2[:], k1); err != nil {
		return err
	}
	if err := r.write("epk", epk[:], k2); err != nil {
		return err
	}
	sp := rmac(k1, cepk[:], epk[:])
	if err := r.write("proof1", sp, k2); err != nil {
		return err
	}
	b, err = r.read(k2)
	if err != nil {
		return err
	}
	k3, err := refDecap(b, esk)
	if err != nil {
		return err
	}
	b, err = r.read(k3)
	if err != nil {
		return err
	}
	var cpk pkey
	copy(cpk[:], b)
	cp, err := r.read(k3)
	if err != nil {
		return err
	}
	if !hmac.Equal(cp, rmac(k2, sp, cpk[:])) {
		return errRef
	}
	c4, k4, err := sntrup4591761.Encapsulate(rnd, &cpk)
	if err != nil {
		return err
	}
	if err := r.write("c4", c4[:], k3); err != nil {
		return err
	}
	if err := r.write("proof2", rmac(k3, cp, pub[:]), k4); err != nil {
		return err
	}
	r.wk, r.rk = rkeys(k1, k2, k3, k4)
	return nil
}

func lies() map[string]func(b []byte) []byte {
	return map[string]func(b []byte) []byte{
		"first bit": func(b []byte) []byte { b[0] ^= 1; return b },
		"last bit":  func(b []byte) []byte { b[len(b)-1] ^= 0x80; return b },
		"zeros":     func(b []byte) []byte { return make([]byte, len(b)) },
		"empty":     func(b []byte) []byte { return nil },
		"short":     func(b []byte) []byte { return b[:len(b)-1] },
		"long":      func(b []byte) []byte { return append(b, 0) },
	}
}

// e01liars plays peers that know all keys but deviate from the protocol.
func e01liars(c *mc.Ctx) {
	A, S, M := sid[0], sid[1], sid[2]
	d := &det{}
	n := 0
	mine := func() bool { n++; return c.Mine(n) && !c.Expired() }
	// the real server against a lying client
	server := func(name string, pub *pkey, priv *skey, lie func(step string, b []byte) []byte, f func(s *srv.KX, serr error, r *ref, rerr error) string) {
		if !mine() {
			return
		}
		d.seed("server %s", name)
		vrand.Hook = func(p []byte) bool { d.Read(p); return true }
		var msg string
		m := mc.RunOnce(func() {
			srv.Init()
			a, b := mcnet.Pair("liar", "server", 0)
			s := &srv.KX{Conn: b, MaxMessageSize: kxMax, OurPublicKey: &S.Public.Key, OurPrivateKey: &S.PrivateKey}
			r := &ref{conn: a, lie: lie}
			var serr, rerr error
			sdone := false
			mc.Go("liar", func() {
				rerr = r.initiate(d, pub, priv, &S.Public.Key)
				if rerr != nil {
					a.CloseWrite()
				}
			})
			mc.Go("server", func() {
				serr = s.Respond()
				sdone = true
				if serr != nil {
					b.Close()
				}
			})
			mc.Quiesce()
			a.CloseWrite()
			mc.Quiesce()
			if !sdone {
				msg = "the server is stuck"
				b.Close()
				mc.Quiesce()
				return
			}
			// records of the liar after the handshake
			a2, b2 := mcnet.Pair("liar2", "server2", 0)
			s.Conn, r.conn = b2, a2
			msg = f(s, serr, r, rerr)
			b2.Close()
			a2.Close()
		})
		vrand.Hook = nil
		c.R.Traces++
		if m != "" {
			msg = m
		}
		c.Eval("lying client")
		if msg != "" {
			c.Violate("liar:"+name, name, "client %s: %s", name, msg)
		}
	}
	server("honest reference", &A.Public.Key, &A.PrivateKey, nil, func(s *srv.KX, serr error, r *ref, rerr error) string {
		if serr != nil || rerr != nil {
			return fmt.Sprintf("handshake with an independent implementation fails: %v %v", serr, rerr)
		}
		if *s.TheirPublicKey != A.Public.Key {
			return "wrong identity"
		}
		if id, ok := s.TheirIdentity().([32]byte); !ok || id != A.Public.Identity {
			return "TheirIdentity is not the fingerprint of the peer's key"
		}
		r.lie = nil
		r.write("", []byte("hello"), r.wk)
		if b, err := s.Read(); err != nil || string(b) != "hello" {
			return fmt.Sprintf("record from an independent implementation: %q %v", b, err)
		}
		return ""
	})
	for _, st := range []string{"c1", "epk", "c3", "identity", "proof"} {
		for ln, l := range lies() {
			if st == "c1" && (ln == "empty" || ln == "short" || ln == "long") {
				continue
			}
			server(st+" "+ln, &A.Public.Key, &A.PrivateKey, func(step string, b []byte) []byte {
				if step == st {
					return l(b)
				}
				return b
			}, func(s *srv.KX, serr error, r *ref, rerr error) string {
				if serr == nil {
					return "the server accepted a handshake with a wrong " + st + " (" + ln + ")"
				}
				return ""
			})
		}
	}
	// claims an identity it has no private key for
	server("with a stolen identity", &A.Public.Key, &M.PrivateKey, nil, func(s *srv.KX, serr error, r *ref, rerr error) string {
		if rerr == nil {
			return "an impostor completed the handshake"
		}
		if serr != nil {
			return ""
		}
		// key confirmation is implicit: no record may pass
		r.lie = nil
		if r.wk != nil {
			r.write("", []byte("hello"), r.wk)
			if b, err := s.Read(); err == nil {
				return fmt.Sprintf("the server accepted %q from an impostor", b)
			}
			if err := s.Write([]byte("secret")); err == nil {
				if b, err := r.read(r.rk); err == nil {
					return fmt.Sprintf("an impostor reads %q", b)
				}
			}
		}
		return ""
	})
	// the real client against a lying server
	client := func(name string, pub *pkey, priv *skey, lie func(step string, b []byte) []byte, want bool) {
		if !mine() {
			return
		}
		d.seed("client %s", name)
		vrand.Hook = func(p []byte) bool { d.Read(p); return true }
		var msg string
		m := mc.RunOnce(func() {
			a, b := mcnet.Pair("client", "liar", 0)
			k := &cli.KX{Conn: a, MaxMessageSize: kxMax, OurPublicKey: &A.Public.Key, OurPrivateKey: &A.PrivateKey, TheirPublicKey: &S.Public.Key}
			r := &ref{conn: b, lie: lie}
			var cerr, rerr error
			cdone := false
			mc.Go("liar", func() {
				rerr = r.respond(d, pub, priv)
				if rerr != nil {
					b.CloseWrite()
				}
			})
			mc.Go("client", func() {
				cerr = k.Initiate()
				cdone = true
				if cerr != nil {
					a.Close()
				}
			})
			mc.Quiesce()
			b.CloseWrite()
			mc.Quiesce()
			switch {
			case !cdone:
				msg = "the client is stuck"
				a.Close()
				mc.Quiesce()
			case want && cerr != nil:
				msg = fmt.Sprintf("handshake with an independent implementation fails: %v (%v)", cerr, rerr)
			case !want && cerr == nil:
				msg = "the client accepted the handshake"
			case want:
				a2, b2 := mcnet.Pair("client2", "liar2", 0)
				k.Conn, r.conn = a2, b2
				r.write("", []byte("hello"), r.wk)
				if x, err := k.Read(); err != nil || string(x) != "hello" {
					msg = fmt.Sprintf("record from an independent implementation: %q %v", x, err)
				}
				k.Write([]byte("back"))
				if x, err := r.read(r.rk); err != nil || string(x) != "back" {
					msg = fmt.Sprintf("record to an independent implementation: %q %v", x, err)
				}
			}
		})
		vrand.Hook = nil
		c.R.Traces++
		if m != "" {
			msg = m
		}
		c.Eval("lying server")
		if msg != "" {
			c.Violate("liar:"+name, name, "server %s: %s", name, msg)
		}
	}
	client("honest reference", &S.Public.Key, &S.PrivateKey, nil, true)
	client("without the private key", &S.Public.Key, &M.PrivateKey, nil, false)
	client("with its own key instead", &M.Public.Key, &M.PrivateKey, nil, false)
	client("naming another key", &M.Public.Key, &S.PrivateKey, nil, false)
	for _, st := range []string{"c2", "epk", "proof1", "c4", "proof2"} {
		for ln, l := range lies() {
			client(st+" "+ln, &S.Public.Key, &S.PrivateKey, func(step string, b []byte) []byte {
				if step == st {
					return l(b)
				}
				return b
			}, false)
		}
	}
}

// estPair is an established session with controllable connections.
type estPair struct {
	c *cli.KX
	s *srv.KX
}

func established(c *mc.Ctx) *estPair {
	sids()
	p := &estPair{}
	shake("established", sid[0], sid[1], &sid[1].Public, nil, func(h *hs) {
		if h.cerr == nil && h.serr == nil {
			p.c, p.s = snap.Copy(h.c), snap.Copy(h.s)
		}
	})
	if p.c == nil {
		c.Violate("honest", nil, "undisturbed handshake fails")
		return nil
	}
	return p
}

// bufConn collects writes and serves reads from a buffer.
type bufConn struct {
	net.Conn
	in    *bytes.Reader
	out   bytes.Buffer
	chunk int
}

func (b *bufConn) Read(p []byte) (int, error) {
	if b.in == nil {
		return 0, io.EOF
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	return b.in.Read(p)
}
func (b *bufConn) Write(p []byte) (int, error) { return b.out.Write(p) }
func (b *bufConn) Close() error                { return nil }

// kxEnd is one end of a session, whichever package copy it comes from.
type kxEnd interface {
	Read() ([]byte, error)
	Write([]byte) error
}

func (p *estPair) end(side int, max uint, conn net.Conn) kxEnd {
	if side == 0 {
		k := snap.Copy(p.c)
		k.Conn = conn
		k.MaxMessageSize = max
		return k
	}
	k := snap.Copy(p.s)
	k.Conn = conn
	k.MaxMessageSize = max
	return k
}

func e02(c *mc.Ctx) {
	p := established(c)
	if p == nil {
		return
	}
	texts := [2][][]byte{
		{[]byte("c-zero"), nil, []byte("c-two"), bytes.Repeat([]byte("3"), 300), []byte("c4")},
		{[]byte("s-zero"), []byte("s-one"), nil, bytes.Repeat([]byte("s"), 77), []byte("s4")},
	}
	var rec [2][]frame
	for side := 0; side < 2; side++ {
		b := &bufConn{}
		k := p.end(side, kxMax, b)
		for _, t := range texts[side] {
			b.out.Reset()
			if err := k.Write(t); err != nil {
				c.Violate("write", nil, "Write fails: %v", err)
				return
			}
			rec[side] = append(rec[side], append(frame(nil), b.out.Bytes()...))
		}
	}
	kinds := []string{"flip", "flip2", "cut", "grow", "empty", "huge"}
	mutate := func(kind string, f frame) frame {
		q := append([]byte(nil), payload(f, false)...)
		switch kind {
		case "flip":
			q[0] ^= 1
		case "flip2":
			q[len(q)-1] ^= 0x80
		case "cut":
			q = q[:len(q)-1]
		case "grow":
			q = append(q, 0)
		case "empty":
			q = nil
		case "huge":
			return frame{0x7f, 0xff, 0xff, 0xff}
		}
		return mkFrame(q, false)
	}
	nrec := c.Pick(4, 5)
	for side := 0; side < 2; side++ {
		// alphabet: own records, reflected records, modifications
		type sym struct {
			name string
			f    frame
			idx  int // genuine record index or -1
		}
		var al []sym
		for i := 0; i < nrec; i++ {
			al = append(al, sym{fmt.Sprint("r", i), rec[side][i], i})
		}
		for i := 0; i < 2; i++ {
			al = append(al, sym{fmt.Sprint("reflected", i), rec[1-side][i], -1})
		}
		for _, k := range kinds {
			al = append(al, sym{k + " r0", mutate(k, rec[side][0]), -1})
			if k == "flip" {
				al = append(al, sym{k + " r1", mutate(k, rec[side][1]), -1})
			}
		}
		seqs(c, len(al), nrec, func(s []int) bool {
			if c.Expired() {
				return false
			}
			var stream []byte
			var names []string
			for _, x := range s {
				stream = append(stream, al[x].f...)
				names = append(names, al[x].name)
			}
			b := &bufConn{in: bytes.NewReader(stream)}
			k := p.end(1-side, kxMax, b)
			delivered := 0
			failed := false
			next, errs := 0, 0
			for pos := 0; pos < len(s)+1; pos++ {
				d, err := k.Read()
				if err != nil {
					failed = true
					errs++
					if b.in.Len() == 0 {
						break
					}
					continue
				}
				// the next record, unmodified; a gap only after an error
				idx := -1
				if pos < len(s) {
					idx = al[s[pos]].idx
				}
				if idx < next || idx > next && errs == 0 || !bytes.Equal(d, texts[side][idx]) {
					c.Violate("stream", names, "side %d reads %q in position %d of the stream %v", 1-side, d, pos, names)
					return true
				}
				next = idx + 1
				errs = 0
				delivered++
			}
			honest := true
			for i, x := range s {
				if al[x].idx != i {
					honest = false
				}
			}
			if honest && delivered != len(s) {
				c.Violate("stream:honest", names, "side %d read only %d of %d records", 1-side, delivered, len(s))
			}
			if !honest && !failed {
				c.Violate("stream:silent", names, "side %d noticed nothing in %v", 1-side, names)
			}
			if delivered > 0 && !honest {
				c.Sample(names)
			}
			c.Eval(fmt.Sprintf("delivered %d honest=%v", delivered, honest))
			return true
		})
		// every split of the byte stream and every end of the connection
		var stream []byte
		for i := 0; i < nrec; i++ {
			stream = append(stream, rec[side][i]...)
		}
		for chunk := 1; chunk < 40; chunk++ {
			if !c.Mine(chunk) {
				continue
			}
			k := p.end(1-side, kxMax, &bufConn{in: bytes.NewReader(stream), chunk: chunk})
			for i := 0; i < nrec; i++ {
				if d, err := k.Read(); err != nil || !bytes.Equal(d, texts[side][i]) {
					c.Violate("split", chunk, "record %d read in pieces of %d bytes: %q %v", i, chunk, d, err)
				}
			}
			c.Eval("split")
		}
		for n := 0; n < len(stream); n++ {
			if !c.Mine(n) {
				continue
			}
			k := p.end(1-side, kxMax, &bufConn{in: bytes.NewReader(stream[:n])})
			i, off := 0, 0
			for {
				d, err := k.Read()
				if err != nil {
					break
				}
				if i >= nrec || !bytes.Equal(d, texts[side][i]) {
					c.Violate("cut", n, "stream cut after %d bytes: record %d reads %q", n, i, d)
					break
				}
				off += len(rec[side][i])
				i++
			}
			if i < nrec && off+len(rec[side][i]) <= n {
				c.Violate("cut", n, "stream cut after %d bytes: record %d lost", n, i)
			}
			c.Eval("cut")
		}
		// every single bit of a record matters
		for bit := 0; bit < len(payload(rec[side][0], false))*8; bit++ {
			if !c.Mine(bit) {
				continue
			}
			q := append([]byte(nil), payload(rec[side][0], false)...)
			q[bit/8] ^= 1 << (bit % 8)
			k := p.end(1-side, kxMax, &bufConn{in: bytes.NewReader(mkFrame(q, false))})
			if d, err := k.Read(); err == nil {
				c.Violate("bit", bit, "record with bit %d flipped read as %q", bit, d)
			}
			c.Eval("bit")
		}
		// message size limit: all sizes around it, refused writes leave the
		// session usable
		for max := uint(64); max < 80; max++ {
			for sz := int(max) - 20; sz < int(max)+4; sz++ {
				if !c.Mine(sz) {
					continue
				}
				b := &bufConn{}
				w := p.end(side, max, b)
				big := bytes.Repeat([]byte("x"), sz)
				err := w.Write(big)
				if (err == nil) != (sz+secretbox.Overhead <= int(max)) {
					c.Violate("limit", []int{int(max), sz}, "Write of %d bytes with limit %d: %v", sz, max, err)
				}
				if err != nil && b.out.Len() > 0 {
					c.Violate("limit:sent", []int{int(max), sz}, "refused write sent %d bytes", b.out.Len())
				}
				if err := w.Write([]byte("after")); err != nil {
					c.Violate("limit:after", []int{int(max), sz}, "Write after a refused write: %v", err)
				}
				r := p.end(1-side, max, &bufConn{in: bytes.NewReader(b.out.Bytes())})
				if err == nil {
					if d, e := r.Read(); e != nil || !bytes.Equal(d, big) {
						c.Violate("limit:read", []int{int(max), sz}, "record of %d bytes with limit %d cannot be read: %v", sz, max, e)
					}
				}
				if d, e := r.Read(); e != nil || string(d) != "after" {
					c.Violate("limit:desync", []int{int(max), sz}, "after a refused write of %d bytes (limit %d) the next record cannot be read: %q %v", sz, max, d, e)
				}
				c.Eval(fmt.Sprintf("limit ok=%v", err == nil))
				// a reader with a smaller limit refuses without allocating
				huge := frame{0x3f, 0xff, 0xff, 0xff}
				r = p.end(1-side, max, &bufConn{in: bytes.NewReader(huge)})
				if _, e := r.Read(); e == nil {
					c.Violate("limit:huge", nil, "oversized record accepted")
				}
			}
		}
	}
}

// e03: no (key, nonce) pair encrypts two different texts.
func e03(c *mc.Ctx) {
	sids()
	type use struct {
		who string
		msg string
	}
	uses := map[string]use{}
	count := map[string]int{}
	phase := "handshake"
	bad := func(key, format string, a ...interface{}) { c.Violate(key, nil, format, a...) }
	vsecretbox.OnSeal = func(k *[32]byte, n *[24]byte, msg []byte) {
		id := string(k[:]) + string(n[:])
		count[phase]++
		who := fmt.Sprintf("%s-%d-%d", phase, count[phase], len(msg))
		sum := sha256.Sum256(msg)
		m := string(sum[:])
		if o, ok := uses[id]; !ok {
			uses[id] = use{who, m}
		} else if o.msg != m {
			bad(fmt.Sprintf("reuse:%s/%s", o.who, who), "seals %s and %s (phase-number-length) use one key and nonce for different texts", o.who, who)
		}
	}
	defer func() { vsecretbox.OnSeal = nil }()
	p := established(c)
	if p == nil {
		return
	}
	c.R.Traces++
	c.Sample(fmt.Sprint("seals of one handshake by phase: ", count))
	c.Eval("handshake")
	if c.Worker > 1 {
		return
	}
	uses = map[string]use{}
	// the record phase, across carries of the sequence number
	n := c.Pick(70000, 17000000)
	var bufs [2]*bufConn
	var ends [2]kxEnd
	for i := range bufs {
		bufs[i] = &bufConn{}
		ends[i] = p.end(i, kxMax, bufs[i])
	}
	seen := map[[56]byte]bool{}
	vsecretbox.OnSeal = func(k *[32]byte, no *[24]byte, msg []byte) {
		var id [56]byte
		copy(id[:], k[:])
		copy(id[32:], no[:])
		if len(seen) < 3000000 {
			if seen[id] {
				bad("reuse:records", "record %d reuses a key and nonce", len(seen))
			}
			seen[id] = true
		}
	}
	for i := 0; i < n; i++ {
		side := c.Worker
		bufs[side].out.Reset()
		t := []byte{byte(i), byte(i >> 8), byte(i >> 16)}
		if err := ends[side].Write(t); err != nil {
			bad("long:write", "record %d: %v", i, err)
			return
		}
		bufs[1-side].in = bytes.NewReader(bufs[side].out.Bytes())
		d, err := ends[1-side].Read()
		if err != nil || !bytes.Equal(d, t) {
			bad("long:read", "record %d of a long session cannot be read: %q %v", i, d, err)
			return
		}
		// also the other direction now and then
		if i%7 == 0 {
			bufs[1-side].out.Reset()
			ends[1-side].Write(t)
			bufs[side].in = bytes.NewReader(bufs[1-side].out.Bytes())
			if d, err := ends[side].Read(); err != nil || !bytes.Equal(d, t) {
				bad("long:read", "answer %d of a long session cannot be read: %q %v", i, d, err)
				return
			}
		}
		if i%1000 == 0 && c.Expired() {
			return
		}
		c.Eval("record")
	}
}

func init() {
	mc.Register(&mc.Check{ID: "E01", Level: "exploration", Run: e01, Rule: "one handshake per attack; non-trivial: outcome classes of both ends and kinds of peer that occurred",
		Assumptions: []string{"cryptographic primitives are not attacked", "client and server run in separate copies of package session, as they do in separate processes"}})
	mc.Register(&mc.Check{ID: "E02", Level: "exploration", Run: e02, Rule: "one stream, fragment size, cut or size per case; non-trivial: distinct outcome classes"})
	mc.Register(&mc.Check{ID: "E03", Level: "exploration", Run: e03, Rule: "one record or handshake seal per case"})
}
