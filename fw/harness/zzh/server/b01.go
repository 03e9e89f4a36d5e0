//go:build go1.22

package main

import (
	"errors"
	"fmt"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "B01", Level: "model_checking", Run: checkB01, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"plain memory accesses between visible operations are atomic"}})
}

// count demands at most one live session among cs.
func count(x *mc.X, cs ...*conn) (live []*conn) {
	for _, c := range cs {
		if c == nil || c.kx == nil {
			continue
		}
		if ok, _ := c.alive(); ok {
			live = append(live, c)
		} else if !c.dead() {
			mc.Fail("%s: session hangs: %v", c.name, mc.Blocked())
		}
	}
	// a later ping must not revive an earlier session
	if len(live) > 1 {
		mc.Fail("%d sessions of one identity are live at the same time", len(live))
	}
	x.Outcome("live %d", len(live))
	return
}

func checkB01(c *mc.Ctx) {
	world()
	bound := c.Pick(3, 4)
	sc := func(name string, bound int, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setup, Body: body,
			Opt: mc.Options{FreeSwitchCost: true}})
	}
	deliver := func(s *srv, p string) {
		if _, err := s.sim.Account().Deliver(aliceID.Public.Identity, bobID.Public.Identity, []byte(p), false); err != nil {
			mc.Fail("deliver: %v", err)
		}
	}
	pushed := func(c *conn, p string) bool {
		for _, m := range c.got {
			if m.m.Command == rpc.TaggedCmdPush {
				var pu rpc.Push
				m.into(&pu)
				if string(pu.Payload) == p {
					return true
				}
			}
		}
		return false
	}

	sc("two-logins", bound, func(x *mc.X) {
		s := boot(nil)
		a, b := s.prep(aliceID), s.prep(aliceID)
		race(a, b)
		count(x, a, b)
		// both are phantoms now, a new login displaces them
		n := s.mustLogin(aliceID, 2, "after two concurrent logins")
		count(x, a, b, n)
		s.atRest(a, b, n)
		s.atRest(s.mustLogin(aliceID, 1, "once everything is closed"))
	})
	sc("relogin-while-closing", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b, d := s.prep(aliceID), s.prep(aliceID)
		race(a.close, b, d)
		live := count(x, b, d)
		_ = live
		// whoever is live is a phantom: its client is gone without a trace
		n := s.mustLogin(aliceID, 2, "while a phantom session is open")
		count(x, b, d, n)
		s.atRest(a, b, d, n)
		s.atRest(s.mustLogin(aliceID, 1, "once everything is closed"))
	})
	sc("displace-close-relogin", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b, d := s.prep(aliceID), s.prep(aliceID)
		race(b, d)
		count(x, a, b, d)
		n := s.mustLogin(aliceID, 2, "while a phantom session is open")
		m := s.mustLogin(aliceID, 2, "while another phantom session is open")
		count(x, a, b, d, n, m)
		s.atRest(a, b, d, n, m)
		s.atRest(s.mustLogin(aliceID, 1, "once everything is closed"))
	})
	sc("login-with-delivery", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b := s.prep(aliceID)
		race(b, func() { deliver(s, "m") })
		for _, l := range count(x, a, b) {
			if !pushed(l, "m") {
				mc.Fail("message not pushed to the live session %s", l.name)
			}
		}
		n := s.mustLogin(aliceID, 2, "again")
		if !pushed(n, "m") {
			mc.Fail("unacknowledged message not pushed to the next session")
		}
		s.atRest(a, b, n)
	})
	// A client that stops reading while the server has a lot to say.
	for _, v := range []struct {
		what  string
		pings int
		mail  int
	}{{"pings", 70, 0}, {"mail", 40, 34}, {"few", 10, 1}} {
		sc("stuck-reader-"+v.what, c.Pick(1, 2), func(x *mc.X) {
			s := boot(nil)
			for i := 0; i < v.mail; i++ {
				deliver(s, fmt.Sprint("m", i))
			}
			a := s.dial(aliceID, 600)
			if err := a.login(); err != nil {
				mc.Fail("login: %v", err)
			}
			a.c.Peer.SetCap(8)
			race(func() {
				for i := 0; i < v.pings; i++ {
					a.send(rpc.TaggedCmdPing, pingTag, rpc.Ping{})
				}
			})
			n := s.mustLogin(aliceID, 2, "while the previous session is stuck in a write")
			x.Outcome("in")
			s.atRest(a, n)
		})
	}
	// more messages than tags, none acknowledged
	sc("unacknowledged-mail", c.Pick(1, 2), func(x *mc.X) {
		s := boot(nil)
		for i := 0; i < 35; i++ {
			deliver(s, fmt.Sprint("m", i))
		}
		a := s.mustLogin(aliceID, 1, "at first")
		n := 0
		for _, m := range a.got {
			if m.m.Command == rpc.TaggedCmdPush {
				n++
			}
		}
		x.Outcome("%d pushed", n)
		race(a.close)
		s.atRest(a)
		s.atRest(s.mustLogin(aliceID, 1, "once everything is closed"))
	})
	// the network dies while the server writes
	sc("write-error", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		race(func() {
			for i := 0; i < 3; i++ {
				a.send(rpc.TaggedCmdPing, pingTag, rpc.Ping{})
			}
			a.close()
		}, func() { deliver(s, "m") })
		s.atRest(a)
		n := s.mustLogin(aliceID, 1, "after the network failed")
		if !pushed(n, "m") {
			mc.Fail("message lost")
		}
		s.atRest(n)
	})
	// the other end vanishes: no FIN, only the deadline
	sc("read-deadline", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.dial(aliceID, 0)
		s.conns[0].UseDeadlines = true
		if err := a.login(); err != nil {
			mc.Fail("login: %v", err)
		}
		if ok, _ := a.alive(); !ok {
			mc.Fail("session not alive")
		}
		race(func() { mc.Advance(16 * second) }, func() { deliver(s, "m") })
		if !a.dead() {
			mc.Fail("a session that is silent for 16 seconds is kept")
		}
		s.atRest(a)
		s.atRest(s.mustLogin(aliceID, 1, "after the phantom timed out"))
	})
	// directory service: registration in the directory fails
	sc("directory-fault", 0, func(x *mc.X) {
		set := mkSettings()
		set.Directory = true
		s := boot(set)
		k := mc.Choose(12)
		n := 0
		vfs.Cur.Fault = func(op, p string) error {
			n++
			if n-1 == k {
				return errors.New("disk error")
			}
			return nil
		}
		a := s.dial(aliceID, 0)
		err := a.login()
		mc.Quiesce()
		vfs.Cur.Fault = nil
		x.Outcome("fault %v login %v", n > k, err == nil)
		m := s.mustLogin(aliceID, 2, "after a disk error")
		s.atRest(a, m)
		s.atRest(s.mustLogin(aliceID, 1, "once everything is closed"))
	})
	// other users are not affected
	sc("others", bound, func(x *mc.X) {
		s := boot(nil)
		a, b := s.prep(aliceID), s.prep(bobID)
		race(a, b)
		for _, l := range []*conn{a, b} {
			if ok, _ := l.alive(); !ok {
				mc.Fail("%s lost the session to another user's login", l.name)
			}
		}
		x.Outcome("both")
		s.atRest(a, b)
	})
}

var _ = zkidentity.New
