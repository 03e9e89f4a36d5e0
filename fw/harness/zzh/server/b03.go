//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zz/mc"
)

func init() {
	mc.Register(&mc.Check{ID: "B03", Level: "model_checking", Run: checkB03, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"plain memory accesses between visible operations are atomic"}})
}

func checkB03(c *mc.Ctx) {
	world()
	bound := c.Pick(3, 4)
	sc := func(name string, bound int, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setup, Body: body,
			Opt: mc.Options{FreeSwitchCost: true}})
	}
	disable := func(s *srv, who string) {
		ad := s.admin()
		r, ok := ad.adminDo(socketapi.SCUserDisable, who)
		if !ok || r.Error != "" {
			mc.Fail("disable: answered %v, %q", ok, r.Error)
		}
		ad.close()
	}
	answered := func(ad *conn) {
		if ad.c.Pending() == 0 {
			mc.Fail("no answer to disable")
		}
		if r, ok := ad.adminReply(); !ok || r.Error != "" {
			mc.Fail("disable: answered %v, %q", ok, r.Error)
		}
		ad.close()
	}
	// shut demands that alice is out and stays out until she is enabled.
	shut := func(x *mc.X, s *srv, cs ...*conn) {
		for _, k := range cs {
			if k.kx == nil {
				continue
			}
			if ok, _ := k.alive(); ok {
				mc.Fail("%s: session of a disabled user is live", k.name)
			}
			if !k.dead() {
				mc.Fail("%s: connection of a disabled user is open: %v", k.name, mc.Blocked())
			}
		}
		n := s.dial(aliceID, 0)
		if err := n.login(); err != errUnwelcome {
			mc.Fail("login of a disabled user: %v", err)
		}
		n.poll()
		if !n.dead() {
			mc.Fail("connection of an unwelcome user stays open")
		}
		n.close()
		ad := s.admin()
		if r, ok := ad.adminDo(socketapi.SCUserEnable, hexID(aliceID)); !ok || r.Error != "" {
			mc.Fail("enable: answered %v, %q", ok, r.Error)
		}
		ad.close()
		m := s.mustLogin(aliceID, 1, "after being enabled")
		s.atRest(append(cs, m, n)...)
		x.Outcome("ok")
	}
	sc("disable-live", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		ad := s.prepAdmin(socketapi.SCUserDisable, hexID(aliceID))
		race(ad, func() {
			for i := 0; i < 2; i++ {
				a.send(rpc.TaggedCmdPing, 3, rpc.Ping{})
			}
		})
		answered(ad)
		shut(x, s, a)
	})
	sc("disable-login", bound, func(x *mc.X) {
		s := boot(nil)
		a, ad := s.prep(aliceID), s.prepAdmin(socketapi.SCUserDisable, hexID(aliceID))
		race(a, ad)
		answered(ad)
		shut(x, s, a)
	})
	sc("disable-relogin", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b, d, ad := s.prep(aliceID), s.prep(aliceID), s.prepAdmin(socketapi.SCUserDisable, hexID(aliceID))
		race(b, d, ad)
		answered(ad)
		shut(x, s, a, b, d)
	})
	sc("relogin-then-disable", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b, d := s.prep(aliceID), s.prep(aliceID)
		race(b, d)
		disable(s, hexID(aliceID))
		shut(x, s, a, b, d)
	})
	sc("disable-stuck-reader", 1, func(x *mc.X) {
		s := boot(nil)
		a := s.dial(aliceID, 0)
		if err := a.login(); err != nil {
			mc.Fail("login: %v", err)
		}
		a.c.Peer.SetCap(8)
		for i := 0; i < 50; i++ {
			a.send(rpc.TaggedCmdPing, pingTag, rpc.Ping{})
		}
		race(func() { disable(s, hexID(aliceID)) })
		if !a.dead() {
			mc.Fail("connection of a disabled user is open")
		}
		shut(x, s)
		s.atRest(a)
	})
	sc("disable-other", bound, func(x *mc.X) {
		s := boot(nil)
		a, b := s.mustLogin(aliceID, 1, "at first"), s.mustLogin(bobID, 1, "at first")
		ad := s.prepAdmin(socketapi.SCUserDisable, hexID(aliceID))
		race(ad, func() {
			b.send(rpc.TaggedCmdCache, 3, rpc.Cache{To: aliceID.Public.Identity, Payload: []byte("x")})
		})
		answered(ad)
		ok, ms := b.alive()
		if !ok {
			mc.Fail("disabling alice ended bob's session")
		}
		n := 0
		for _, m := range append(b.got[1:], ms...) {
			if m.m.Command == rpc.TaggedCmdAcknowledge && m.m.Tag == 3 {
				var ak rpc.Acknowledge
				m.into(&ak)
				x.Outcome("%s %d", map[bool]string{true: "stored", false: "refused"}[ak.Error == ""], ak.ErrorCode)
				n++
			}
		}
		if n == 0 {
			mc.Fail("no acknowledgement for a message to a user who is being disabled")
		}
		b.close()
		shut(x, s, a)
	})

	// sequences of requests on one and on several admin connections
	type req struct {
		name string
		raw  string
		who  int // 0 alice 1 bob -1 nobody
		cmd  string
		ok   bool // well formed
	}
	j := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	one := func(cmd, id string) string {
		return j(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd}) + "\n" + j(socketapi.SocketCommandUserEnable{Identity: id}) + "\n"
	}
	var al []req
	for _, cmd := range []string{socketapi.SCUserDisable, socketapi.SCUserEnable} {
		h := hexID(aliceID)
		al = append(al,
			req{cmd + " alice", one(cmd, h), 0, cmd, true},
			req{cmd + " ALICE", one(cmd, strings.ToUpper(h)), 0, cmd, true},
			req{cmd + " bob", one(cmd, hexID(bobID)), 1, cmd, true},
			req{cmd + " unknown", one(cmd, strings.Repeat("7", 64)), -1, cmd, true},
			req{cmd + " short", one(cmd, h[:62]), -1, cmd, true},
			req{cmd + " long", one(cmd, h+"00"), -1, cmd, true},
			req{cmd + " odd", one(cmd, h[:63]), -1, cmd, true},
			req{cmd + " nothex", one(cmd, "zz"+h[2:]), -1, cmd, true},
			req{cmd + " empty", one(cmd, ""), -1, cmd, true},
			req{cmd + " path", one(cmd, "../"+h[:61]), -1, cmd, true},
			req{cmd + " number", j(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd}) + `{"identity":7}`, -1, cmd, false},
		)
	}
	al = append(al,
		req{"bad version", j(socketapi.SocketCommandID{Version: 99, Command: socketapi.SCUserDisable}) + j(socketapi.SocketCommandUserDisable{Identity: hexID(aliceID)}), -1, "", false},
		req{"no command", one("", hexID(aliceID)), -1, "", false},
		req{"bogus", one("bogus", hexID(aliceID)), -1, "", false},
		req{"junk", "\x00\xff{", -1, "", false},
		req{"null", "null null", -1, "", false},
		req{"array", "[1,2]", -1, "", false},
	)
	seqs(c, len(al), c.Pick(3, 4), func(seq []int) bool {
		var names []string
		for _, i := range seq {
			names = append(names, al[i].name)
		}
		key := strings.Join(names, "; ")
		var out []string
		setup()
		fail := mc.RunOnce(func() {
			s := boot(nil)
			live := []*conn{s.mustLogin(aliceID, 1, "at first"), s.mustLogin(bobID, 1, "at first")}
			disabled := []bool{false, false}
			ad := s.admin()
			for _, i := range seq {
				r := al[i]
				if ad.dead() {
					ad.close()
					ad = s.admin()
				}
				ad.c.Write([]byte(r.raw))
				mc.Quiesce()
				if !r.ok {
					if ad.c.Pending() > 0 {
						mc.Fail("%s: the server answered", r.name)
					}
					out = append(out, "ignored")
					ad.close()
					mc.Quiesce()
					ad = s.admin()
					continue
				}
				if ad.c.Pending() == 0 {
					mc.Fail("%s: no answer", r.name)
				}
				var rep adminReply
				if err := json.NewDecoder(ad.c).Decode(&rep); err != nil {
					mc.Fail("%s: answer %v", r.name, err)
				}
				want := false
				if r.who >= 0 {
					want = disabled[r.who] == (r.cmd == socketapi.SCUserEnable)
				}
				if (rep.Error == "") != want {
					mc.Fail("%s: answer %q in state %v", r.name, rep.Error, disabled)
				}
				if want {
					disabled[r.who] = r.cmd == socketapi.SCUserDisable
					if disabled[r.who] {
						mc.Quiesce()
						if !live[r.who].dead() {
							mc.Fail("%s: the session stays open", r.name)
						}
						live[r.who].close()
					}
				}
				out = append(out, rep.Error[:min(len(rep.Error), 12)])
				for u, d := range disabled {
					if d || live[u].c.IsClosed() {
						continue
					}
					if ok, _ := live[u].alive(); !ok {
						mc.Fail("%s: ended the session of user %d", r.name, u)
					}
				}
			}
			ad.close()
			for u, d := range disabled {
				live[u].close()
				mc.Quiesce()
				k := s.dial([]*conn{live[0], live[1]}[u].id, 0)
				err := k.login()
				if d && err != errUnwelcome || !d && err != nil {
					mc.Fail("login of user %d (disabled %v): %v", u, d, err)
				}
				k.close()
			}
			s.atRest()
		})
		if fail != "" {
			c.Violate("requests", key, "%s: %s", key, fail)
			return false
		}
		c.R.Traces++
		c.Eval(fmt.Sprint(out))
		return true
	})
}
