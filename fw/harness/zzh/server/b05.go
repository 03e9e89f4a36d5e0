//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/settings"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	mc.Register(&mc.Check{ID: "B05", Level: "model_checking", Run: checkB05, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)"}})
	mc.Register(&mc.Check{ID: "B06", Level: "model_checking", Run: checkB06, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"crash model: completed metadata operations are durable and ordered, data is durable once synced",
		"zkservertoken does not add tokens at the very moment the server uses one"}})
}

const (
	pendingFile = sroot + "/pending/pending.ini"
	farFuture   = "4000000000"
	longAgo     = "1000000000"
)

// tokens writes the token database the way zkservertoken does.
func tokens(t map[string]string) {
	vfs.Cur.PutDir(sroot + "/pending")
	db, err := inidb.New(pendingFile, true, 10)
	if err != nil && db == nil {
		panic(err)
	}
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := db.Set("", k, t[k]); err != nil {
			panic(err)
		}
	}
	if err := db.Save(); err != nil {
		panic(err)
	}
}

// create sends an account request and returns the answer: "ok", "refused",
// "failed" or "closed".
func (c *conn) create(token string, pid zkidentity.PublicIdentity) string {
	if c.put(rpc.InitialCmdCreateAccount) != nil || c.put(rpc.CreateAccount{Token: token, PublicIdentity: pid}) != nil {
		return "closed"
	}
	mc.Quiesce()
	return c.createReply()
}

func (c *conn) createReply() string {
	if c.c.Pending() == 0 {
		if !c.dead() {
			mc.Fail("no answer to an account request: %v", mc.Blocked())
		}
		return "closed"
	}
	var r rpc.CreateAccountReply
	if _, err := xdr.Unmarshal(c.c, &r); err != nil {
		mc.Fail("account answer: %v", err)
	}
	switch r.Error {
	case "":
		return "ok"
	case rpc.ErrCreateDisallowed.Error():
		return "refused"
	case rpc.ErrInternalError.Error():
		return "failed"
	}
	mc.Fail("answer %q is not sanitized", r.Error)
	return ""
}

func (c *conn) identify() (*zkidentity.PublicIdentity, bool) {
	if c.put(rpc.InitialCmdIdentify) != nil {
		return nil, false
	}
	mc.Quiesce()
	if c.c.Pending() == 0 {
		if !c.dead() {
			mc.Fail("no answer to an identify request: %v", mc.Blocked())
		}
		return nil, false
	}
	var p zkidentity.PublicIdentity
	if _, err := xdr.Unmarshal(c.c, &p); err != nil {
		mc.Fail("identify answer: %v", err)
	}
	return &p, true
}

func forged(nick string, how int) zkidentity.PublicIdentity {
	p := newPub(nick)
	switch how {
	case 0: // somebody else's handle
		p.Identity = newPub("victim").Identity
	case 1: // changed name
		p.Nick = "root"
	case 2: // no signature
		p.Signature = [64]byte{}
	case 3: // handle with a matching digest but not the key's
		f := *newFull(nick)
		f.Public.Identity[0] ^= 1
		f.RecalculateDigest()
		p = f.Public
	}
	return p
}

func checkB05(c *mc.Ctx) {
	world()
	type user struct {
		pid     zkidentity.PublicIdentity
		exists  bool
		enabled bool
		valid   bool
	}
	type op struct {
		name  string
		kind  string // identify create login garbage
		u     int
		token string
	}
	var al []op
	for u, n := range []string{"new", "new2", "existing", "disabled", "handle-forged", "nick-forged"} {
		for _, t := range []string{"t1", "t2", "old", "bad", "none", ""} {
			if u > 0 && t != "t1" && t != "none" {
				continue
			}
			al = append(al, op{fmt.Sprintf("create %s with token %q", n, t), "create", u, t})
		}
		if u < 4 {
			al = append(al, op{"login " + n, "login", u, ""})
		}
	}
	al = append(al, op{"identify", "identify", 0, ""}, op{"garbage", "garbage", 0, ""})
	for _, policy := range []string{"no", "token", "yes", "bogus", ""} {
		for _, ident := range []bool{false, true} {
			set := func() *settings.Settings {
				s := mkSettings()
				s.CreatePolicy = policy
				s.AllowIdentify = ident
				return s
			}
			ok := true
			seqs(c, len(al), c.Pick(3, 4), func(seq []int) bool {
				if len(seq) > 2 && c.Quick() && policy != "token" {
					return true
				}
				var names []string
				for _, i := range seq {
					names = append(names, al[i].name)
				}
				key := fmt.Sprintf("policy %q identify %v: %s", policy, ident, strings.Join(names, "; "))
				setup()
				tokens(map[string]string{"t1": farFuture, "t2": farFuture, "old": longAgo, "bad": "soon"})
				var out []string
				// both a single connection and one connection per request
				for _, single := range []bool{true, false} {
					if len(seq) == 1 && !single {
						continue
					}
					save := vfs.Cur.Clone()
					fail := mc.RunOnce(func() {
						us := []*user{
							{newPub("zed"), false, true, true}, {newPub("yan"), false, true, true},
							{aliceID.Public, true, true, true}, {bobID.Public, true, false, true},
							{forged("zoe", 0), false, true, false}, {forged("zoe", 1), false, true, false},
						}
						s := boot(set())
						if err := s.sim.Account().Disable(bobID.Public.Identity); err != nil {
							mc.Fail("%v", err)
						}
						tok := map[string]bool{"t1": true, "t2": true}
						var k *conn
						for _, i := range seq {
							o := al[i]
							if k == nil || k.dead() || !single {
								if k != nil {
									k.close()
									mc.Quiesce()
								}
								k = s.dial(nil, 0)
							}
							u := us[o.u]
							switch o.kind {
							case "identify":
								p, ok := k.identify()
								if ok != ident {
									mc.Fail("identify answered: %v", ok)
								}
								if ok && *p != srvID.Public {
									mc.Fail("wrong server identity")
								}
								if !ok != k.dead() {
									mc.Fail("identify: connection closed %v", k.dead())
								}
							case "create":
								r := k.create(o.token, u.pid)
								out = append(out, r)
								want := "refused"
								allowed := policy == "yes" || policy == "token" && tok[o.token]
								if allowed {
									want = "failed"
									if policy == "token" {
										delete(tok, o.token)
									}
									if u.valid && !u.exists {
										want = "ok"
									}
								}
								if want == "failed" && r == "refused" {
									r = want // both refuse, which one is not specified
								}
								if r != want {
									mc.Fail("%s answered %q, want %q", o.name, r, want)
								}
								if want == "ok" {
									u.exists = true
								}
								if s.sim.Account().Enabled(u.pid.Identity) != (u.exists && u.enabled) {
									mc.Fail("after %s the account exists: %v", o.name, !u.exists)
								}
							case "login":
								k.id = map[int]*zkidentity.FullIdentity{0: newFull("zed"), 1: newFull("yan"), 2: aliceID, 3: bobID}[o.u]
								err := k.login()
								live := false
								if err == nil {
									live, _ = k.alive()
								}
								if live != (u.exists && u.enabled) || (err == errUnwelcome) != (u.exists && !u.enabled) {
									mc.Fail("%s: %v live %v", o.name, err, live)
								}
								mc.Quiesce()
								if !live && !k.dead() {
									mc.Fail("%s: connection stays open", o.name)
								}
								k.close()
								mc.Quiesce()
								k = nil
							case "garbage":
								k.put("bogus")
								mc.Quiesce()
								if !k.dead() {
									mc.Fail("unknown command keeps the connection open")
								}
							}
						}
						if k != nil {
							k.close()
						}
						s.atRest()
					})
					if fail != "" {
						c.Violate("sequence", key, "%s (one connection %v): %s", key, single, fail)
						ok = false
						return false
					}
					vfs.Cur = save
				}
				c.Eval(fmt.Sprint(policy, ident, out))
				c.R.Traces++
				return true
			})
			if !ok {
				return
			}
		}
	}
	// every way to forge an identity
	for h := 0; h < 4; h++ {
		setup()
		fail := mc.RunOnce(func() {
			set := mkSettings()
			set.CreatePolicy = "yes"
			s := boot(set)
			k := s.dial(nil, 0)
			p := forged("zoe", h)
			if r := k.create("", p); r == "ok" || s.sim.Account().Enabled(p.Identity) {
				mc.Fail("account created: %s", r)
			}
			s.atRest(k)
		})
		if fail != "" {
			c.Violate(fmt.Sprint("forged", h), h, "creating an account for a forged identity (%d): %s", h, fail)
		}
		c.Eval("forged")
	}
	c.R.States = c.R.Evals
}

// ---- B06 ----

func checkB06(c *mc.Ctx) {
	world()
	set := func() *settings.Settings {
		s := mkSettings()
		s.CreatePolicy = "token"
		return s
	}
	bound := c.Pick(3, 4)
	sc := func(name string, bound int, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: func() {
			setup()
			mc.CalmStart = true
		}, Body: body, Opt: mc.Options{FreeSwitchCost: true}})
	}
	prep := func(s *srv, token, nick string) *conn {
		k := s.dialPaused()
		k.put(rpc.InitialCmdCreateAccount)
		k.put(rpc.CreateAccount{Token: token, PublicIdentity: newPub(nick)})
		return k
	}
	for _, n := range []string{"u1", "u2", "u3", "u4"} {
		newPub(n)
	}
	one := func(s *srv, token, nick string) string {
		k := s.dial(nil, 0)
		r := k.create(token, newPub(nick))
		k.close()
		mc.Quiesce()
		return r
	}
	for _, other := range []bool{false, true} {
		name := "same-token"
		if other {
			name = "two-tokens"
		}
		sc(name, bound, func(x *mc.X) {
			tokens(map[string]string{"t1": farFuture, "t2": farFuture, "t3": farFuture, "old": longAgo})
			s := boot(set())
			a := prep(s, "t1", "u1")
			b := prep(s, "t1", "u2")
			if other {
				b.close()
				b = prep(s, "t2", "u2")
			}
			race(a, b)
			ra, rb := a.createReply(), b.createReply()
			x.Outcome("%s %s", ra, rb)
			if other {
				if ra != "ok" || rb != "ok" {
					mc.Fail("valid tokens: %s %s", ra, rb)
				}
			} else if (ra == "ok") == (rb == "ok") {
				mc.Fail("one token, two requests: %s %s", ra, rb)
			}
			if r := one(s, "t1", "u3"); r != "refused" {
				mc.Fail("t1 once more: %s", r)
			}
			if other {
				if r := one(s, "t2", "u3"); r != "refused" {
					mc.Fail("t2 once more: %s", r)
				}
			}
			if r := one(s, "t3", "u4"); r != "ok" {
				mc.Fail("unused token t3: %s", r)
			}
			if r := one(s, "old", "u3"); r != "refused" {
				mc.Fail("expired token: %s", r)
			}
			a.close()
			b.close()
			s.atRest()
		})
	}
	sc("three-requests", c.Pick(2, 3), func(x *mc.X) {
		tokens(map[string]string{"t1": farFuture, "t2": farFuture})
		s := boot(set())
		ks := []*conn{prep(s, "t1", "u1"), prep(s, "t2", "u2"), prep(s, "t1", "u3")}
		race(ks[0], ks[1], ks[2])
		var r []string
		n := 0
		for i, k := range ks {
			v := k.createReply()
			r = append(r, v)
			if v == "ok" && i != 1 {
				n++
			}
			k.close()
		}
		x.Outcome("%v", r)
		if n != 1 || r[1] != "ok" {
			mc.Fail("answers %v", r)
		}
		for _, t := range []string{"t1", "t2"} {
			if v := one(s, t, "u4"); v != "refused" {
				mc.Fail("%s once more: %s", t, v)
			}
		}
		s.atRest()
	})
	// sequences of uses and of time that passes, against a model
	life := []int64{-1, 30, 200, 2000, 5000, 20000, 90000, 700000}
	steps := []int64{20, 1000, 10000, 100000}
	users := make([]string, len(life)+1)
	for i := range users {
		users[i] = fmt.Sprintf("w%d", i)
		newPub(users[i])
	}
	depth := c.Pick(4, 5)
	seqs(c, len(life)+len(steps), depth, func(q []int) bool {
		for i := 1; i < len(q); i++ {
			// time passes in one order only
			if q[i] >= len(life) && q[i-1] > q[i] {
				return true
			}
		}
		setup()
		// at odd times, so that nothing happens in the last second of a token
		m := map[string]string{"bad": "soon", "none": ""}
		t0 := mc.PeekNano()/second + 5
		for i, l := range life {
			m[fmt.Sprint("t", i)] = fmt.Sprint(t0 + l)
		}
		tokens(m)
		var out []string
		fail := mc.RunOnce(func() {
			s := boot(set())
			used := map[int]bool{}
			for step, o := range q {
				if o >= len(life) {
					mc.Advance(steps[o-len(life)] * second)
					continue
				}
				now := mc.PeekNano() / second
				r := one(s, fmt.Sprint("t", o), users[step])
				out = append(out, r)
				left := t0 + life[o] - now
				switch {
				case left > -2 && left < 2:
				case (used[o] || left < 0) && r == "ok":
					mc.Fail("step %d: token with %d s left, used before %v, is accepted", step, left, used[o])
				case !used[o] && left > 0 && r != "ok":
					mc.Fail("step %d: unused token with %d s left: %s", step, left, r)
				}
				used[o] = true
			}
			for _, t := range []string{"bad", "none", "", "t", "[x]", "t0=1"} {
				if r := one(s, t, users[len(life)]); r == "ok" {
					mc.Fail("token %q is accepted", t)
				}
			}
			s.atRest()
		})
		c.Eval(fmt.Sprint(out))
		c.R.Traces++
		if fail != "" {
			c.Violate("times", fmt.Sprint(q), "operations %v (%d tokens that expire after %v s, then waits of %v s): %s", q, len(life), life, steps, fail)
			return false
		}
		return true
	})
	// crashes and disk errors while a token is used
	use := func(what string, after func(r string)) string {
		return mc.RunOnce(func() {
			s := boot(set())
			r := one(s, "t1", "u1")
			vfs.Cur.Fault, vfs.Cur.Short = nil, nil
			if after != nil {
				after(r)
				if r1 := one(s, "t1", "u2"); r1 == "ok" && (r == "ok" || s.sim.Account().Enabled(newPub("u1").Identity)) {
					mc.Fail("%s: the token makes two accounts", what)
				}
			}
			s.atRest()
		})
	}
	again := func(what string, replied bool) string {
		return mc.RunOnce(func() {
			s := boot(set())
			u1 := s.sim.Account().Enabled(newPub("u1").Identity)
			if replied && !u1 {
				mc.Fail("%s: confirmed account is gone", what)
			}
			n := 0
			if u1 {
				n++
			}
			for _, u := range []string{"u2", "u3"} {
				if one(s, "t1", u) == "ok" {
					n++
				}
			}
			if n > 1 {
				mc.Fail("%s: the token makes %d accounts", what, n)
			}
			if r := one(s, "t2", "u4"); r != "ok" {
				mc.Fail("%s: another token is answered %s", what, r)
			}
			if r := one(s, "old", "u3"); r == "ok" {
				mc.Fail("%s: expired token works", what)
			}
			c.Eval(fmt.Sprintf("%v %d", u1, n))
			s.atRest()
		})
	}
	if c.Mine(0) {
		setup()
		tokens(map[string]string{"t1": farFuture, "t2": farFuture, "old": longAgo})
		base := vfs.Cur.Clone()
		vfs.Cur.Log = nil
		if f := use("", nil); f != "" {
			c.Violate("use", "", "%s", f)
			return
		}
		log := vfs.Cur.Log
		n := vfs.Crashes(base, log, c.Pick(3, 0), true, func(cr vfs.Crash) bool {
			vfs.Cur = cr.FS
			if f := again(cr.String(), cr.After == len(log)); f != "" {
				c.Violate("crash", cr.String(), "using a token, %v of %v: %s", cr, log, f)
				return false
			}
			return !c.Expired()
		})
		c.R.Traces += n
	}
	for k := 0; k < 200; k++ {
		if !c.Mine(k) {
			continue
		}
		hit := ""
		for _, short := range []bool{false, true} {
			setup()
			tokens(map[string]string{"t1": farFuture, "t2": farFuture, "old": longAgo})
			n := 0
			vfs.Cur.Fault = func(op, p string) error {
				n++
				if n-1 == k {
					hit = op + " " + p
					return fmt.Errorf("disk error")
				}
				return nil
			}
			vfs.Cur.Short = func(op, p string, n int) int {
				if short {
					return n / 2
				}
				return 0
			}
			res := ""
			f := use("failing "+hit, func(r string) { res = r })
			if f == "" {
				f = again("restart after failing "+hit+" answered "+res, res == "ok")
			}
			if f != "" {
				c.Violate("fault", k, "using a token, failing %s: %s", hit, f)
				return
			}
			if hit == "" {
				break
			}
		}
		if hit == "" {
			break
		}
	}
	c.R.States += c.R.Evals
}

