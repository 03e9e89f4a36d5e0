//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/blobshare"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/ttk"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vsntrup"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// offer is a key exchange that a simulated user starts with a client.
type offer struct {
	r     *ratchet.Ratchet
	plain []byte // IdentityKX
	k     *[32]byte
	to    *zkidentity.FullIdentity
}

// offers starts a key exchange in which the user claims an identity.
func offers(me, you *zkidentity.FullIdentity, claim zkidentity.PublicIdentity) *offer {
	o := &offer{r: ratchet.New(vrand.Reader), to: you}
	o.r.MyPrivateKey = &me.PrivateKey
	o.r.MySigningPublic = &me.Public.SigKey
	o.r.TheirIdentityPublic = &you.Public.Identity
	o.r.TheirSigningPublic = &you.Public.SigKey
	o.r.TheirPublicKey = &you.Public.Key
	var kx ratchet.KeyExchange
	if err := o.r.FillKeyExchange(&kx); err != nil {
		panic(err)
	}
	o.plain = xenc(rpc.IdentityKX{Identity: claim, KX: kx})
	return o
}

// encrypt packs something for the owner of a public key.
func (o *offer) encrypt(plain []byte, to *zkidentity.FullIdentity) []byte {
	c, k, err := vsntrup.Encapsulate(vrand.Reader, &to.Public.Key)
	if err != nil {
		panic(err)
	}
	o.k = k
	return append(append([]byte(nil), c[:]...), pack(plain, k)...)
}

func pack(plain []byte, k *[32]byte) []byte {
	e, nonce, err := blobshare.Encrypt(plain, k)
	if err != nil {
		panic(err)
	}
	return blobshare.PackNonce(nonce, e)
}

// finish completes the exchange with the client's reply.
func (o *offer) finish(b []byte) {
	nonce, e, err := blobshare.UnpackNonce(b)
	if err != nil {
		mc.Fail("reply: %v", err)
	}
	d, err := blobshare.Decrypt(o.k, nonce, e)
	if err != nil {
		mc.Fail("reply: %v", err)
	}
	var kx rpc.KX
	if _, err := xdr.UnmarshalLimited(bytes.NewReader(d), &kx, 1<<20); err != nil {
		mc.Fail("reply: %v", err)
	}
	if err := o.r.CompleteKeyExchange(&kx.KX, true); err != nil {
		mc.Fail("reply: %v", err)
	}
}

// target is a client that is shown forged identities.
type target struct {
	c    *cli
	l    *link
	s    *side
	n    int
	base string
	wins int
}

func newTarget(dir bool) *target {
	t := &target{}
	t.c, t.l = boot(aliceID, dir)
	t.s = &side{id: aliceID, c: t.c, l: t.l}
	t.l.read()
	t.mark()
	return t
}

func (t *target) mark() {
	t.base = t.s.state()
	t.wins = len(ttk.All)
}

// quiet demands that nothing happened but the given replies.
func (t *target) quiet(what string, ms []rmsg) {
	for _, m := range ms {
		mc.Fail("%s: client sends %s", what, m.m.Command)
	}
	if t.l.dead() {
		mc.Fail("%s: client closes the connection; %s", what, t.c.tail())
	}
	if s := t.s.state(); s != t.base {
		mc.Fail("%s: files have changed: %s; %s", what, changes(t.base, s), t.c.tail())
	}
	if len(ttk.All) != t.wins {
		mc.Fail("%s: client asks whether to accept it", what)
	}
	t.n++
}

// refuse pushes a payload that must not do anything.
func (t *target) refuse(what string, clear bool, from [32]byte, payload []byte) {
	tag := uint32(t.n % 10)
	t.l.sendMsg(rpc.Message{Command: rpc.TaggedCmdPush, Tag: tag, Cleartext: clear}, rpc.Push{From: from, Received: mc.PeekNano() / 1e9, Payload: payload})
	var rest []rmsg
	for _, m := range t.l.poll() {
		if m.m.Command == rpc.TaggedCmdAcknowledge && m.m.Tag == tag {
			continue
		}
		rest = append(rest, m)
	}
	t.quiet(what, rest)
}

// altered calls f with every version of an encoded identity in which one byte
// has changed and that decodes to something else.
func altered(plain []byte, n int, f func(i int, b []byte)) {
	id := func(b []byte) string {
		var p zkidentity.PublicIdentity
		if _, err := xdr.UnmarshalLimited(bytes.NewReader(b), &p, 1<<20); err != nil {
			return "bad"
		}
		return fmt.Sprintf("%+v", p)
	}
	orig := id(plain)
	for i := 0; i < n; i++ {
		for _, x := range []byte{1, 0x80} {
			b := append([]byte(nil), plain...)
			b[i] ^= x
			if id(b[:n]) == orig {
				continue // padding
			}
			f(i, b)
		}
	}
}

// forged shows clients identities that are not what they claim to be.
func forged(c *mc.Ctx) {
	i := 0
	run := func(name string, fs *vfs.FS, dir bool, body func(t *target)) {
		i++
		if !c.Mine(i) {
			return
		}
		setupOn(fs)()
		n := 0
		if f := mc.RunOnce(func() {
			t := newTarget(dir)
			body(t)
			n = t.n
		}); f != "" {
			first := strings.SplitN(f, "\n", 2)[0]
			c.Violate("forged:"+name+":"+strip(strings.SplitN(first, ": ", 3)[0]), name, "%s: %s", name, first)
		}
		c.R.States += n
		c.R.Traces += n
		c.Eval("forged " + name)
	}
	idLen := len(xenc(carolID.Public))
	friends := friendsFS("alice+bob")
	half := halfFS()
	// every way to get an offer to the client
	type way struct {
		name string
		fs   *vfs.FS
		dir  bool
		pin  bool
		self bool // the client has a ratchet with the sender
	}
	var ways []way
	for _, dir := range []bool{false, true} {
		d := ""
		if dir {
			d = " with directory"
		}
		if dir {
			ways = append(ways, way{"stranger" + d, freshFS, dir, false, false})
		}
		ways = append(ways, way{"stranger with PIN" + d, freshFS, dir, true, false},
			way{"contact" + d, friends, dir, false, true}, way{"contact with PIN" + d, friends, dir, true, true})
	}
	for _, w := range ways {
		w := w
		who := carolID
		if w.self {
			who = bobID
		}
		// key returns the key for offers by PIN
		prep := func(t *target) func(o *offer, plain []byte) []byte {
			var key *[32]byte
			if w.pin {
				key = postedKey(t)
			}
			return func(o *offer, plain []byte) []byte {
				if key != nil {
					o.k = key
					return pack(plain, key)
				}
				return o.encrypt(plain, aliceID)
			}
		}
		genuine := func(t *target, enc func(o *offer, plain []byte) []byte) {
			o := offers(who, aliceID, who.Public)
			b := enc(o, o.plain)
			if w.self {
				t.refuse("offer of a contact", false, who.Public.Identity, b)
				p := t.c.peer(bobID)
				t.c.alive(t.l, p, "still here")
				return
			}
			ms := t.l.push(who, b)
			if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdCache {
				mc.Fail("genuine offer is not answered; %s", t.c.tail())
			}
			var ca rpc.Cache
			ms[0].into(&ca)
			if ca.To != who.Public.Identity {
				mc.Fail("answer for someone else")
			}
			o.finish(ca.Payload)
			t.l.ack(ms)
			t.c.peers[hexID(who)] = &peer{id: who, me: aliceID, r: o.r}
			t.c.alive(t.l, t.c.peer(who), "hello there")
		}
		for part := 0; part < 4; part++ {
			part := part
			run(fmt.Sprintf("%s, altered identity", w.name), w.fs, w.dir, func(t *target) {
				enc := prep(t)
				o := offers(who, aliceID, who.Public)
				altered(o.plain, idLen, func(i int, b []byte) {
					if i%4 != part {
						return
					}
					from := who.Public.Identity
					t.refuse(fmt.Sprintf("identity altered at %d", i), false, from, enc(o, b))
					var kx rpc.IdentityKX
					if _, err := xdr.UnmarshalLimited(bytes.NewReader(b), &kx, 1<<20); err == nil && kx.Identity.Identity != from {
						t.refuse(fmt.Sprintf("identity altered at %d", i), false, kx.Identity.Identity, enc(o, b))
					}
				})
				genuine(t, enc)
			})
		}
		run(w.name+", wrong identity", w.fs, w.dir, func(t *target) {
			enc := prep(t)
			ids := []*zkidentity.FullIdentity{aliceID, bobID, carolID, daveID}
			for _, claim := range ids {
				for _, from := range ids {
					if claim == from && from != aliceID && !(w.self && from == bobID) {
						continue
					}
					o := offers(who, aliceID, claim.Public)
					t.refuse("claims "+nickOf(claim)+" from "+nickOf(from), false, from.Public.Identity, enc(o, o.plain))
				}
				o := offers(who, aliceID, claim.Public)
				t.refuse("from nobody", false, [32]byte{}, enc(o, o.plain))
			}
			o := offers(who, aliceID, who.Public)
			t.refuse("encrypted for someone else", false, who.Public.Identity, o.encrypt(o.plain, daveID))
			t.refuse("encrypted with an unknown key", false, who.Public.Identity, pack(o.plain, new([32]byte)))
			genuine(t, enc)
		})
		run(w.name+", cut off", w.fs, w.dir, func(t *target) {
			enc := prep(t)
			o := offers(who, aliceID, who.Public)
			b := enc(o, o.plain)
			for i := 0; i < len(b); i += 1 + i/64 {
				t.refuse(fmt.Sprintf("cut off after %d", i), false, who.Public.Identity, b[:i])
			}
			for i := 0; i < len(b); i += 1 + i/64 {
				x := append([]byte(nil), b...)
				x[i] ^= 1
				t.refuse(fmt.Sprintf("bit flipped at %d", i), false, who.Public.Identity, x)
			}
			for i := 0; i < len(o.plain); i += 1 + i/64 {
				t.refuse(fmt.Sprintf("plaintext cut off after %d", i), false, who.Public.Identity, enc(o, o.plain[:i]))
			}
			genuine(t, enc)
		})
	}
	// replies while an exchange is under way
	run("reply", half, true, func(t *target) {
		nonces := 0
		for i := 0; i < 3000; i += 1 + i/16 {
			nonces++
			t.refuse("junk reply", false, bobID.Public.Identity, bytes.Repeat([]byte{byte(i)}, i))
		}
		o := offers(carolID, aliceID, bobID.Public)
		for _, plain := range [][]byte{nil, {0}, o.plain[:20]} {
			t.refuse("junk", false, bobID.Public.Identity, o.encrypt(plain, aliceID))
		}
		altered(o.plain, idLen, func(i int, b []byte) {
			if i%7 == 0 {
				t.refuse(fmt.Sprintf("identity altered at %d", i), false, bobID.Public.Identity, o.encrypt(b, aliceID))
			}
		})
	})
	// cleartext commands
	for _, dir := range []bool{false, true} {
		run(fmt.Sprint("cleartext ", dir), friends, dir, func(t *target) {
			cmd := func(n uint32) []byte { return xenc(rpc.ProxyCmd{Command: n, Message: "m"}) }
			for _, from := range [][32]byte{bobID.Public.Identity, carolID.Public.Identity, aliceID.Public.Identity, {}} {
				for _, p := range [][]byte{nil, {}, {0, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 1, 0xff, 0xff, 0xff, 0xff}, cmd(0), cmd(2), cmd(1 << 31), cmd(256)} {
					t.refuse("cleartext", true, from, p)
				}
				if from != bobID.Public.Identity {
					t.refuse("reset by a stranger", true, from, cmd(1))
				}
			}
			p := t.c.peer(bobID)
			t.refuse("cleartext message", true, bobID.Public.Identity, p.seal(rpc.PrivateMessage{Text: "in the clear"}))
			t.c.alive(t.l, p, "still here")
		})
	}
	// what the directory returns
	for part := 0; part < 4; part++ {
		part := part
		run("directory", freshFS, true, func(t *target) {
			find := func(what string, id []byte, err string) {
				t.c.cmd("/find carol")
				ms := t.l.read()
				if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdIdentityFind {
					mc.Fail("/find sends %v; %s", ms, t.c.tail())
				}
				t.l.kx.Write(append(append(xenc(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: ms[0].m.Tag}), xenc("carol", err)...), id...))
				t.quiet(what, t.l.poll())
			}
			b := xenc(carolID.Public)
			find("not found", b, "not found")
			altered(b, len(b), func(i int, x []byte) {
				var p zkidentity.PublicIdentity
				if _, err := xdr.UnmarshalLimited(bytes.NewReader(x), &p, 1<<20); err != nil || i%4 != part {
					return
				}
				find(fmt.Sprintf("identity altered at %d", i), x, "")
			})
		})
	}
	// what is found under a PIN
	for part := 0; part < 4; part++ {
		part := part
		for name, fs := range map[string]*vfs.FS{"strangers": freshFS, "friends": friends} {
			fs := fs
			run("blob among "+name, fs, false, func(t *target) {
				blob := func(what string, plain []byte, pw string, ok bool) {
					k, salt, err := blobshare.NewKey([]byte("secret"))
					if err != nil {
						panic(err)
					}
					e, nonce, err := blobshare.Encrypt(plain, k)
					if err != nil {
						panic(err)
					}
					t.blob(what, blobshare.PackSaltNonce(salt, nonce, e), pw, ok)
				}
				b := xenc(carolID.Public)
				for _, pw := range []string{"", "Secret", "secret ", " secret", "secre", "secrett"} {
					blob("wrong password", b, pw, false)
				}
				blob("self", xenc(aliceID.Public), "secret", false)
				if fs == friends {
					blob("contact", xenc(bobID.Public), "secret", false)
				}
				for i := 0; i < len(b); i += 1 + i/64 {
					blob("cut off", b[:i], "secret", false)
				}
				for i := 0; i < 200; i++ {
					t.blob("junk", bytes.Repeat([]byte{7}, i), "secret", false)
				}
				altered(b, len(b), func(i int, x []byte) {
					if i%4 == part {
						blob(fmt.Sprintf("identity altered at %d", i), x, "secret", false)
					}
				})
				for _, no := range []string{"", "no", "y", "ye", "yes ", " yes", "yess", "yes\n", "Nein"} {
					blob("genuine", b, "secret", true)
					t.s.dialog = ttk.All[len(ttk.All)-1]
					t.enter(t.s.dialog, no)
					t.wins = len(ttk.All)
					t.quiet("answer "+no, t.l.read())
				}
				blob("genuine", b, "secret", true)
				t.enter(ttk.All[len(ttk.All)-1], []string{"yes", "YES", "Yes", "yEs"}[part])
				ms := t.l.read()
				if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdCache {
					mc.Fail("accepted identity gets no message")
				}
			})
		}
	}
}

func (t *target) enter(w *ttk.Window, text string) {
	t.c.do(func() {
		w.Fill(0, text)
		w.Enter(0)
	})
	mc.Quiesce()
}

// blob lets the client fetch a blob.
func (t *target) blob(what string, b []byte, pw string, ok bool) {
	t.c.cmd("/fetch 123")
	ms := t.l.read()
	if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdRendezvousPull {
		mc.Fail("/fetch sends %v; %s", ms, t.c.tail())
	}
	t.l.send(rpc.TaggedCmdRendezvousPullReply, ms[0].m.Tag, rpc.RendezvousPullReply{Token: "123", Blob: b})
	mc.Quiesce()
	t.enter(t.c.window("kxAcceptWindow"), pw)
	if ok {
		if len(ttk.All) != t.wins+1 {
			mc.Fail("%s: no question", what)
		}
		t.wins++
	}
	t.quiet(what, t.l.read())
}

// postedKey lets the client post its identity and derives the key the way
// others do.
func postedKey(t *target) *[32]byte {
	w := t.c.window("kxWindow")
	t.c.cmd("/kx")
	t.enter(w, "shared")
	ms := t.l.read()
	if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdRendezvous {
		mc.Fail("/kx sends %v", ms)
	}
	var r rpc.Rendezvous
	ms[0].into(&r)
	t.l.send(rpc.TaggedCmdRendezvousReply, ms[0].m.Tag, rpc.RendezvousReply{Token: "5"})
	mc.Quiesce()
	salt, nonce, data, err := blobshare.UnpackSaltNonce(r.Blob)
	if err != nil {
		mc.Fail("posted blob: %v", err)
	}
	k, err := blobshare.DeriveKey([]byte("shared"), salt)
	if err != nil {
		mc.Fail("posted blob: %v", err)
	}
	d, err := blobshare.Decrypt(k, nonce, data)
	if err != nil {
		mc.Fail("posted blob: %v", err)
	}
	var id zkidentity.PublicIdentity
	if _, err := xdr.UnmarshalLimited(bytes.NewReader(d), &id, 1<<20); err != nil || id != aliceID.Public {
		mc.Fail("posted blob is not the identity: %v", err)
	}
	t.mark()
	return k
}

// halfFS is a disk of a client that waits for a reply of bob.
func halfFS() *vfs.FS {
	setupOn(freshFS)()
	if f := mc.RunOnce(func() {
		a, l := boot(aliceID, true)
		a.cmd("/find bob")
		for _, m := range l.read() {
			if m.m.Command == rpc.TaggedCmdIdentityFind {
				l.send(rpc.TaggedCmdIdentityFindReply, m.m.Tag, rpc.IdentityFindReply{Nick: "bob", Identity: bobID.Public})
			}
		}
		l.ack(l.poll())
	}); f != "" {
		return freshFS.Clone() // reported by other scenarios
	}
	return vfs.Cur.Clone()
}

// sameNick lets a client meet users with the same nick and demands that each
// keeps the name under which the client knows it.
func sameNick(c *mc.Ctx) {
	i := 0
	for _, order := range [][]*zkidentity.FullIdentity{{bobID, bob2ID}, {bob2ID, bobID}, {bobID, carolID, bob2ID}, {bob2ID, carolID, bobID}} {
		for _, gap := range []time.Duration{time.Nanosecond, time.Second} {
			for ops := 0; ops < 3*3*3; ops++ {
				i++
				if !c.Mine(i) {
					continue
				}
				order, gap, ops := order, gap, ops
				setupOn(freshFS)()
				key := fmt.Sprintf("same nick %s gap %v ops %d", nicksOf(order), gap, ops)
				if f := mc.RunOnce(func() {
					a, l := boot(aliceID, true)
					l.read()
					names := map[string]*zkidentity.FullIdentity{}
					meet := func(id *zkidentity.FullIdentity) {
						o := offers(id, aliceID, id.Public)
						ms := l.push(id, o.encrypt(o.plain, aliceID))
						if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdCache {
							mc.Fail("offer is not answered; %s", a.tail())
						}
						var ca rpc.Cache
						ms[0].into(&ca)
						o.finish(ca.Payload)
						l.ack(ms)
						a.peers[hexID(id)] = &peer{id: id, me: aliceID, r: o.r}
					}
					look := func() {
						for name, id := range names {
							t := fmt.Sprintf("to%s%d", hexID(id)[:4], len(l.got))
							a.cmd("/m %s %s", name, t)
							got := l.sent(l.read())
							if len(got) != 1 || got[0].p.id != id {
								mc.Fail("message to %s goes to someone else or nowhere; %s", name, a.tail())
							}
							mc.Advance(1)
							h := fmt.Sprintf("of%s%d", hexID(id)[:4], len(l.got))
							l.tell(a.peer(id), rpc.PrivateMessage{Text: h})
							ok := false
							for _, w := range a.screen() {
								for _, s := range w {
									if strings.HasSuffix(s, "<"+name+"> "+h) {
										ok = true
									}
								}
							}
							if !ok {
								mc.Fail("message of %s shown under another name: %v", name, a.screen())
							}
						}
					}
					for _, id := range order {
						meet(id)
						var fresh []string
						for _, w := range a.screen() {
							for _, s := range w {
								k := strings.Index(s, "Nick       : ")
								if k < 0 {
									continue
								}
								if n := s[k+len("Nick       : "):]; names[n] == nil {
									fresh = append(fresh, n)
								}
							}
						}
						if len(fresh) != 1 {
							mc.Fail("new names after %s: %q", nickOf(id), fresh)
						}
						name := fresh[0]
						names[name] = id
						mc.Advance(int64(gap))
					}
					for n, k := 0, ops; n < 3; n++ {
						switch k % 3 {
						case 0:
							look()
						case 1:
							a, l = a.reboot(true)
							l.read()
						case 2:
							// the first one resets the ratchet
							id := order[0]
							mc.Advance(int64(time.Second))
							ms := l.pushMsg(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 4, Cleartext: true}, id, xenc(rpc.ProxyCmd{Command: 1, Message: "reset"}))
							if len(ms) != 1 || ms[0].m.Command != rpc.TaggedCmdCache {
								mc.Fail("reset is not answered; %s", a.tail())
							}
							var ca rpc.Cache
							ms[0].into(&ca)
							l.ack(ms)
							answer(a, l, id, ca.Payload)
						}
						k /= 3
					}
					look()
					a, l = a.reboot(true)
					l.read()
					look()
				}); f != "" {
					first := strings.SplitN(f, "\n", 2)[0]
					c.Violate("same nick:"+strip(first), key, "%s: %s", key, first)
				}
				c.R.States++
				c.R.Traces++
				c.Eval("same nick")
			}
		}
	}
}

func nicksOf(l []*zkidentity.FullIdentity) string {
	var s []string
	for _, i := range l {
		n := nickOf(i)
		if i == bob2ID {
			n = "bob2"
		}
		s = append(s, n)
	}
	return strings.Join(s, ",")
}

// answer completes a key exchange that a client has started.
func answer(a *cli, l *link, me *zkidentity.FullIdentity, b []byte) {
	var ct [sntrup4591761.CiphertextSize]byte
	copy(ct[:], b)
	k, ok := vsntrup.Decapsulate(&ct, &me.PrivateKey)
	if ok != 1 {
		mc.Fail("cannot decapsulate an offer")
	}
	nonce, e, err := blobshare.UnpackNonce(b[len(ct):])
	if err != nil {
		mc.Fail("offer: %v", err)
	}
	d, err := blobshare.Decrypt(k, nonce, e)
	if err != nil {
		mc.Fail("offer: %v", err)
	}
	var idkx rpc.IdentityKX
	if _, err := xdr.UnmarshalLimited(bytes.NewReader(d), &idkx, 1<<20); err != nil || idkx.Identity != a.id.Public {
		mc.Fail("offer of another identity: %v", err)
	}
	r := ratchet.New(vrand.Reader)
	r.MyPrivateKey = &me.PrivateKey
	r.MySigningPublic = &me.Public.SigKey
	r.TheirIdentityPublic = &a.id.Public.Identity
	r.TheirSigningPublic = &a.id.Public.SigKey
	r.TheirPublicKey = &a.id.Public.Key
	var kx ratchet.KeyExchange
	if err := r.FillKeyExchange(&kx); err != nil {
		panic(err)
	}
	if err := r.CompleteKeyExchange(&idkx.KX, false); err != nil {
		mc.Fail("offer: %v", err)
	}
	l.push(me, pack(xenc(rpc.KX{KX: kx}), k))
	a.peers[hexID(me)] = &peer{id: me, me: a.id, r: r}
}

// changes lists the lines that are only in one of two texts.
func changes(a, b string) string {
	in := map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		in[l]--
	}
	for _, l := range strings.Split(b, "\n") {
		in[l]++
	}
	var d []string
	for l, n := range in {
		if n != 0 {
			if len(l) > 200 {
				l = l[:200]
			}
			d = append(d, fmt.Sprintf("%+d %s", n, l))
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}
