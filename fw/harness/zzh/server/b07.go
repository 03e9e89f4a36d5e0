//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/settings"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
)

func init() {
	mc.Register(&mc.Check{ID: "B07", Level: "model_checking", Run: checkB07, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"crash model: completed metadata operations are durable and ordered, data is durable once synced"}})
	mc.Register(&mc.Check{ID: "B08", Level: "model_checking", Run: checkB08, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)"}})
}

// ---- B07 ----

// pins makes the server draw the given PINs first.
func pins(p ...uint64) {
	i := 0
	vrand.Hook = func(b []byte) bool {
		if len(b) != 8 || i >= len(p) {
			return false
		}
		// the same PIN in either byte order
		binary.BigEndian.PutUint64(b, p[i])
		i++
		return true
	}
}

// find returns the reply to tag among the messages.
func find(ms []rmsg, tag uint32) *rmsg {
	var r *rmsg
	for i, m := range ms {
		if m.m.Tag == tag && m.m.Command != rpc.TaggedCmdPush {
			if r != nil {
				mc.Fail("two replies to tag %v", tag)
			}
			r = &ms[i]
		}
	}
	return r
}

// ask sends a request and returns its reply, nil when the session ended.
func (c *conn) ask(cmd string, tag uint32, p interface{}) *rmsg {
	if c.dead() || c.send(cmd, tag, p) != nil {
		return nil
	}
	r := find(c.poll(), tag)
	if r == nil && !c.dead() {
		mc.Fail("%s: no reply to %s: %v", c.name, cmd, mc.Blocked())
	}
	return r
}

func uploaded(r *rmsg) (pin string, ok bool) {
	if r == nil {
		return "", false
	}
	if r.m.Command != rpc.TaggedCmdRendezvousReply {
		mc.Fail("reply to an upload is %v", r.m.Command)
	}
	var v rpc.RendezvousReply
	r.into(&v)
	if v.Error == "" && v.Token == "" {
		mc.Fail("upload confirmed without a PIN")
	}
	return v.Token, v.Error == ""
}

func (c *conn) pull(pin string) (blob []byte, ok bool) {
	r := c.ask(rpc.TaggedCmdRendezvousPull, 5, rpc.RendezvousPull{Token: pin})
	if r == nil {
		mc.Fail("session ended when PIN %q was pulled", pin)
	}
	if r.m.Command != rpc.TaggedCmdRendezvousPullReply {
		mc.Fail("reply to a pull is %v", r.m.Command)
	}
	var v rpc.RendezvousPullReply
	r.into(&v)
	if v.Error == "" && v.Token != pin {
		mc.Fail("pull of %q answered for %q", pin, v.Token)
	}
	if v.Error != "" && len(v.Blob) > 0 {
		mc.Fail("failed pull of %q carries data", pin)
	}
	return v.Blob, v.Error == ""
}

// stored demands that PIN yields blob.
func (c *conn) stored(pin string, blob []byte, what string) {
	b, ok := c.pull(pin)
	if !ok {
		mc.Fail("%s: confirmed PIN is unknown", what)
	}
	if !bytes.Equal(b, blob) {
		mc.Fail("%s: PIN yields other data (%d bytes instead of %d)", what, len(b), len(blob))
	}
}

func blobOf(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + seed
	}
	return b
}

func rzSetup() {
	setup()
	vfs.Cur.PutDir(sroot + "/rendezvous")
}

func checkB07(c *mc.Ctx) {
	world()
	bound := c.Pick(3, 4)
	sc := func(name string, bound int, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: rzSetup, Body: body, Opt: mc.Options{FreeSwitchCost: true}})
	}
	up := func(k *conn, tag uint32, blob []byte) func() {
		return func() { k.send(rpc.TaggedCmdRendezvous, tag, rpc.Rendezvous{Blob: blob, Expiration: "24"}) }
	}
	// concurrent uploads, also with the same random draw and a taken PIN
	for _, old := range []bool{false, true} {
		for _, draw := range [][]uint64{nil, {7, 7, 8, 9}, {7, 1000007, 2000007, 7, 9}} {
			old, draw := old, draw
			sc(fmt.Sprintf("uploads%d-old:%v", len(draw), old), bound, func(x *mc.X) {
				s := boot(nil)
				a, b := s.mustLogin(aliceID, 1, "first"), s.mustLogin(bobID, 1, "first")
				blobs := map[string][]byte{}
				want := 2
				if old {
					pins(7)
					p, ok := uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: blobOf(5, 1), Expiration: "24"}))
					if !ok {
						mc.Fail("first upload fails")
					}
					blobs[p] = blobOf(5, 1)
					want++
				}
				pins(draw...)
				race(up(a, 2, blobOf(20, 2)), up(b, 2, blobOf(30, 3)))
				for i, k := range []*conn{a, b} {
					p, ok := uploaded(find(k.poll(), 2))
					if !ok {
						mc.Fail("upload of %s fails", k.name)
					}
					blobs[p] = blobOf(20+10*i, byte(2+i))
				}
				if len(blobs) != want {
					mc.Fail("one PIN was given to two blobs")
				}
				x.Outcome("%d", len(blobs))
				check := func(k *conn, what string) {
					var ps []string
					for p := range blobs {
						ps = append(ps, p)
					}
					sort.Strings(ps)
					for _, p := range ps {
						k.stored(p, blobs[p], what)
					}
				}
				check(b, "after both uploads")
				s.atRest(a, b)
				s = boot(nil)
				d := s.mustLogin(carolID, 1, "after a restart")
				check(d, "after a restart")
				s.atRest(d)
			})
		}
	}
	sc("upload-pull", bound, func(x *mc.X) {
		s := boot(nil)
		a, b := s.mustLogin(aliceID, 1, "first"), s.mustLogin(bobID, 1, "first")
		pins(7, 8)
		p, _ := uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: blobOf(5, 1), Expiration: "24"}))
		race(up(a, 2, blobOf(20, 2)), func() {
			b.send(rpc.TaggedCmdRendezvousPull, 5, rpc.RendezvousPull{Token: p})
		})
		r := find(b.poll(), 5)
		var v rpc.RendezvousPullReply
		if r != nil {
			r.into(&v)
		}
		if r == nil || v.Error != "" || !bytes.Equal(v.Blob, blobOf(5, 1)) {
			mc.Fail("stored blob cannot be pulled during another upload: %v", v.Error)
		}
		q, ok := uploaded(find(a.poll(), 2))
		if !ok {
			mc.Fail("upload fails during a pull")
		}
		a.stored(q, blobOf(20, 2), "uploaded during a pull")
		x.Outcome("ok")
		s.atRest(a, b)
	})
	sc("upload-stuck", c.Pick(2, 3), func(x *mc.X) {
		// a client that reads nothing must not hold up the others
		s := boot(nil)
		b := s.mustLogin(bobID, 1, "first")
		a := s.dial(aliceID, 0)
		if err := a.login(); err != nil {
			mc.Fail("login: %v", err)
		}
		s.conns[len(s.conns)-1].SetCap(1)
		var fs []interface{}
		fs = append(fs, func() {
			for i := uint32(0); i < 32; i++ {
				a.send(rpc.TaggedCmdRendezvousPull, i%32, rpc.RendezvousPull{Token: "1"})
				a.send(rpc.TaggedCmdRendezvous, i%32, rpc.Rendezvous{Blob: blobOf(9, 2), Expiration: "24"})
			}
		}, up(b, 2, blobOf(20, 2)))
		race(fs...)
		p, ok := uploaded(find(b.poll(), 2))
		if !ok {
			mc.Fail("upload fails while another session is stuck: %v", mc.Blocked())
		}
		b.stored(p, blobOf(20, 2), "uploaded while another session is stuck")
		x.Outcome("ok")
		s.atRest(a, b)
	})
	rzSeq(c)
	rzDisk(c)
	// blobs whose time is over; a finding of its own
	if c.Mine(1) {
		rzSetup()
		served := false
		fail := mc.RunOnce(func() {
			s := boot(nil)
			a := s.mustLogin(aliceID, 1, "first")
			p, ok := uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: blobOf(5, 1), Expiration: "1"}))
			if !ok {
				mc.Fail("upload fails")
			}
			s.atRest(a)
			mc.Advance(2 * 3600 * second)
			b := s.mustLogin(bobID, 1, "later")
			_, served = b.pull(p)
			s.atRest(b)
		})
		if fail != "" {
			c.Violate("expiry", 0, "%s", fail)
		} else if served {
			c.Violate("expired-blob", 0, "a blob is handed out after its expiration")
		}
		c.Eval("expiry")
	}
	c.R.States += c.R.Evals
}

// rzSeq explores sequences of uploads, pulls and restarts against a model.
func rzSeq(c *mc.Ctx) {
	type up struct {
		n    int
		exp  string
		must int // 1 must work, 0 must be refused
	}
	ups := []up{{0, "24", 1}, {1, "0", 1}, {4095, "167", 1}, {4096, "24", 1}, {4097, "24", 0}, {5000, "24", 0}, {9, "168", 1},
		{9, "169", 0}, {9, "-1", 0}, {9, "", 0}, {9, "abc", 0}, {9, "1.5", 0}, {9, " 24", 0}, {9, "99999999999999999999", 0}, {9, "24\n[x]\n1=2", 0}}
	hostile := []string{"", "x", "07", " 7", "7 ", "-1", "[x]", "7=1", "1000007", "7\n8", "\x00", "../7", "18446744073709551616"}
	few := c.Quick()
	nu := len(ups)
	draws := [][]uint64{{7, 7, 9, 7, 9, 0, 999999}, nil}
	// operations: ups..., pull all hostile, restart, all draws taken
	depth := c.Pick(3, 4)
	for _, draw := range draws {
		okAll := true
		seqs(c, nu+3, depth, func(q []int) bool {
			if few || len(q) > 3 {
				// at full depth only representative uploads
				for _, o := range q {
					if len(q) >= 3 && o < nu && o != 0 && o != 2 && o != 4 && o != 14 {
						return true
					}
				}
			}
			rzSetup()
			pins(draw...)
			fail := mc.RunOnce(func() {
				s := boot(nil)
				a := s.mustLogin(aliceID, 1, "first")
				model := map[string][]byte{}
				for step, o := range q {
					blob := blobOf(11, byte(step))
					must := 1
					exp := "24"
					switch {
					case o < nu:
						blob, exp, must = blobOf(ups[o].n, byte(step)), ups[o].exp, ups[o].must
					case o == nu:
						for _, h := range hostile {
							if _, known := model[h]; known {
								continue
							}
							if _, ok := a.pull(h); ok {
								mc.Fail("PIN %q was never given out but yields data", h)
							}
						}
						continue
					case o == nu+1:
						s.atRest(a)
						s = boot(nil)
						a = s.mustLogin(bobID, 1, "after a restart")
						must = -2
					case o == nu+2:
						// every draw is a PIN in use
						var t string
						for p := range model {
							if t == "" || p < t {
								t = p
							}
						}
						if t == "" {
							continue
						}
						var n uint64
						fmt.Sscan(t, &n)
						var p []uint64
						for i := 0; i < 200; i++ {
							p = append(p, n+uint64(i)*1000000)
						}
						pins(p...)
						must = 0
					}
					if must != -2 {
						r := a.ask(rpc.TaggedCmdRendezvous, 3, rpc.Rendezvous{Blob: blob, Expiration: exp})
						if r == nil {
							mc.Fail("session ended on an upload of %d bytes for %q hours", len(blob), exp)
						}
						pin, ok := uploaded(r)
						if ok && must == 0 {
							mc.Fail("upload of %d bytes for %q hours succeeds", len(blob), exp)
						}
						if !ok && must == 1 {
							mc.Fail("upload of %d bytes for %q hours is refused", len(blob), exp)
						}
						if ok {
							if _, used := model[pin]; used {
								mc.Fail("PIN %s is given out twice", pin)
							}
							model[pin] = blob
						}
						if o == nu+2 {
							pins(draw...)
						}
					}
					var ps []string
					for p := range model {
						ps = append(ps, p)
					}
					sort.Strings(ps)
					for _, p := range ps {
						a.stored(p, model[p], fmt.Sprintf("step %d", step))
					}
				}
				s.atRest(a)
			})
			c.Eval(fmt.Sprint(q))
			c.R.Traces++
			if fail != "" {
				c.Violate("sequence", fmt.Sprint(q), "draws %v operations %v: %s", draw, q, fail)
				okAll = false
				return false
			}
			return true
		})
		if !okAll {
			return
		}
	}
}

// rzDisk enumerates crashes and disk errors of an upload.
func rzDisk(c *mc.Ctx) {
	const old = "7"
	oldBlob, newBlob := blobOf(40, 1), blobOf(50, 2)
	prepare := func() {
		rzSetup()
		f := mc.RunOnce(func() {
			s := boot(nil)
			a := s.mustLogin(aliceID, 1, "first")
			pins(7)
			p, ok := uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: oldBlob, Expiration: "24"}))
			if !ok || p != old {
				// another way to draw PINs is none of our business
				c.Note("pin", p)
			}
			oldPin = p
			s.atRest(a)
		})
		if f != "" {
			c.Violate("prepare", 0, "%s", f)
		}
		vrand.Hook = nil
	}
	use := func() (pin string, ok bool, f string) {
		f = mc.RunOnce(func() {
			s := boot(nil)
			a := s.mustLogin(aliceID, 1, "first")
			pin, ok = uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: newBlob, Expiration: "24"}))
			a.close()
			mc.Quiesce()
			vfs.Cur.Fault, vfs.Cur.Short = nil, nil
			s.atRest(a)
		})
		return
	}
	after := func(pin string, ok bool, what string) string {
		return mc.RunOnce(func() {
			s := boot(nil)
			a := s.mustLogin(bobID, 1, "afterwards")
			a.stored(oldPin, oldBlob, what+": earlier blob")
			if ok {
				a.stored(pin, newBlob, what)
			}
			q, ok := uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: newBlob, Expiration: "24"}))
			if !ok {
				mc.Fail("%s: no upload works afterwards", what)
			}
			a.stored(q, newBlob, what+": next upload")
			a.stored(oldPin, oldBlob, what+": earlier blob after the next upload")
			s.atRest(a)
		})
	}
	if c.Mine(2) {
		prepare()
		base := vfs.Cur.Clone()
		vfs.Cur.Log = nil
		pin, ok, f := use()
		if f != "" || !ok {
			c.Violate("use", "", "upload fails: %s", f)
			return
		}
		log := vfs.Cur.Log
		n := vfs.Crashes(base, log, c.Pick(3, 0), true, func(cr vfs.Crash) bool {
			vfs.Cur = cr.FS
			c.Eval(fmt.Sprint(cr.After))
			if f := after(pin, cr.After == len(log), cr.String()); f != "" {
				c.Violate("crash", cr.String(), "upload, %v of %v: %s", cr, log, f)
				return false
			}
			return !c.Expired()
		})
		c.R.Traces += n
	}
	for k := 0; k < 200; k++ {
		if !c.Mine(k) {
			continue
		}
		hit := ""
		for _, short := range []bool{false, true} {
			prepare()
			n := 0
			hit = ""
			vfs.Cur.Fault = func(op, p string) error {
				n++
				if n-1 == k {
					hit = op + " " + p
					return fmt.Errorf("disk error")
				}
				return nil
			}
			vfs.Cur.Short = func(op, p string, n int) int {
				if short {
					return n / 2
				}
				return 0
			}
			var pin string
			var ok bool
			f := mc.RunOnce(func() {
				s := boot(nil)
				a := s.attempt(aliceID)
				if a != nil {
					pin, ok = uploaded(a.ask(rpc.TaggedCmdRendezvous, 1, rpc.Rendezvous{Blob: newBlob, Expiration: "24"}))
					a.close()
				}
				mc.Quiesce()
				vfs.Cur.Fault, vfs.Cur.Short = nil, nil
				s.atRest(a)
			})
			vfs.Cur.Fault, vfs.Cur.Short = nil, nil
			if f == "" {
				f = after(pin, ok, "failing "+hit)
			}
			c.Eval(hit)
			if f != "" {
				c.Violate("fault", k, "upload, failing %s: %s", hit, f)
				return
			}
		}
		if hit == "" {
			break
		}
	}
}

var oldPin string

// ---- B08 ----

func checkB08(c *mc.Ctx) {
	world()
	dir := func(on bool) func() *settings.Settings {
		return func() *settings.Settings {
			s := mkSettings()
			s.Directory = on
			return s
		}
	}
	bob2 := newFull("bob")
	newFull("zed")
	ids := []*zkidentity.FullIdentity{aliceID, bobID, bob2}
	nicks := []string{"alice", "bob", "carol", "ali", "Alice", "bob ", "", "a", "ghost", "alice name"}
	dsetup := func() {
		setup()
		vfs.Cur.PutDir(users)
	}
	ask := func(k *conn, nick string) (*zkidentity.PublicIdentity, bool) {
		r := k.ask(rpc.TaggedCmdIdentityFind, 6, rpc.IdentityFind{Nick: nick})
		return answer(r, nick)
	}
	// state: per id 0 not there, 1 unlisted, 2 listed; disabled flag
	type st struct{ listed, disabled [3]bool }
	look := func(k *conn, m st, on bool, what string) string {
		out := ""
		for _, n := range nicks {
			got, ok := ask(k, n)
			can, must := false, false
			for i, id := range ids {
				if id.Public.Nick != n || !m.listed[i] {
					continue
				}
				can = can || ok && *got == id.Public
				must = must || !m.disabled[i]
			}
			if n == "carol" && on {
				// the one who asks is listed herself
				can, must = ok && *got == carolID.Public, true
			}
			if ok && !on {
				mc.Fail("%s: the directory is disabled but %q is found", what, n)
			}
			if ok && !can {
				mc.Fail("%s: looking for %q yields %q %x", what, n, got.Nick, got.Identity[:4])
			}
			if !ok && must && on {
				mc.Fail("%s: listed user %q is not found", what, n)
			}
			if ok {
				out += n + fmt.Sprintf("%x ", got.Identity[:2])
			}
		}
		return out
	}
	// operations: login of each, disable/enable of alice and bob, toggle directory
	nops := 3 + 2 + 2 + 1
	fails := false
	seqs(c, nops, c.Pick(3, 5), func(q []int) bool {
		dsetup()
		fail := mc.RunOnce(func() {
			on := true
			s := boot(dir(on)())
			if err := s.sim.Account().Create(bob2.Public, false); err != nil {
				mc.Fail("create: %v", err)
			}
			var m st
			k := s.mustLogin(carolID, 1, "at first")
			carolListed := on
			for i, o := range q {
				what := fmt.Sprintf("step %d of %v", i, q)
				switch {
				case o < 3:
					u := s.attempt(ids[o])
					if (u != nil) == m.disabled[o] {
						mc.Fail("%s: login of %s: %v", what, ids[o].Public.Nick, u != nil)
					}
					if u != nil {
						u.close()
						mc.Quiesce()
						m.listed[o] = m.listed[o] || on
					}
				case o < 7:
					u := (o - 3) % 2
					ad := s.admin()
					cmd := socketapi.SCUserDisable
					if o >= 5 {
						cmd = socketapi.SCUserEnable
					}
					r, ok := ad.adminDo(cmd, hexID(ids[u]))
					if !ok {
						mc.Fail("%s: no answer", what)
					}
					if r.Error == "" {
						m.disabled[u] = o < 5
					}
					ad.close()
				case o == 7:
					s.atRest(k)
					on = !on
					s = boot(dir(on)())
					k = s.mustLogin(carolID, 1, "after a restart")
					carolListed = carolListed || on
				}
				c.Eval(look(k, m, on, what))
			}
			s.atRest(k)
		})
		c.R.Traces++
		if fail != "" {
			c.Violate("sequence", fmt.Sprint(q), "%s", fail)
			fails = true
			return false
		}
		return true
	})
	if fails {
		return
	}
	sc := func(name string, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: c.Pick(3, 4), Shard: true, Setup: dsetup, Body: body, Opt: mc.Options{FreeSwitchCost: true}})
	}
	asks := func(k *conn, n string) func() {
		return func() { k.send(rpc.TaggedCmdIdentityFind, 6, rpc.IdentityFind{Nick: n}) }
	}
	for _, nick := range []string{"alice", "bob"} {
		nick := nick
		base := func() (*srv, *conn) {
			s := boot(dir(true)())
			k := s.mustLogin(carolID, 1, "at first")
			a := s.mustLogin(aliceID, 1, "at first")
			s.closeQuiet(a)
			return s, k
		}
		fin := func(x *mc.X, s *srv, k *conn, cs ...*conn) {
			id, ok := answer(find(k.poll(), 6), nick)
			x.Outcome("%v", ok)
			if ok && id.Nick != nick {
				mc.Fail("looking for %q yields %q", nick, id.Nick)
			}
			if nick == "alice" && (!ok || *id != aliceID.Public) {
				mc.Fail("alice is listed but not found")
			}
			if ok && nick == "bob" && *id != bobID.Public {
				mc.Fail("looking for bob yields somebody else")
			}
			s.atRest(append(cs, k)...)
		}
		sc("find-login-"+nick, func(x *mc.X) {
			s, k := base()
			b := s.prep(bobID)
			race(asks(k, nick), b)
			fin(x, s, k, b)
		})
		sc("find-create-"+nick, func(x *mc.X) {
			s, k := base()
			race(asks(k, nick), func() { s.sim.Account().Create(newPub("zed"), false) })
			fin(x, s, k)
		})
		sc("find-disable-"+nick, func(x *mc.X) {
			s, k := base()
			ad := s.prepAdmin(socketapi.SCUserDisable, hexID(bobID))
			race(asks(k, nick), ad)
			ad.adminReply()
			ad.close()
			fin(x, s, k)
		})
		sc("find-find-"+nick, func(x *mc.X) {
			s, k := base()
			b := s.mustLogin(bobID, 1, "at first")
			race(asks(k, nick), asks(b, "carol"))
			id, ok := answer(find(b.poll(), 6), "carol")
			if !ok || *id != carolID.Public {
				mc.Fail("carol is online and listed but not found")
			}
			fin(x, s, k, b)
		})
	}
	c.R.States += c.R.Evals
}

func (s *srv) closeQuiet(k *conn) {
	k.close()
	mc.Quiesce()
}

func answer(r *rmsg, nick string) (*zkidentity.PublicIdentity, bool) {
	if r == nil {
		mc.Fail("no reply to a search for %q: %v", nick, mc.Blocked())
	}
	if r.m.Command != rpc.TaggedCmdIdentityFindReply {
		mc.Fail("reply to a search is %v", r.m.Command)
	}
	var v rpc.IdentityFindReply
	r.into(&v)
	if v.Nick != nick {
		mc.Fail("search for %q answered for %q", nick, v.Nick)
	}
	if v.Error != "" {
		if v.Identity != (zkidentity.PublicIdentity{}) {
			mc.Fail("failed search for %q carries an identity", nick)
		}
		return nil, false
	}
	return &v.Identity, true
}
