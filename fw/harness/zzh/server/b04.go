//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "B04", Level: "model_checking", Run: checkB04, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"crash model: completed metadata operations are durable and ordered, data is durable once synced"}})
}

// mayFail are messages whose delivery may fail with or without leaving them.
var mayFail = map[string]bool{"x": true, "y": true}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type letter struct {
	from  int
	body  string
	clear bool
}

func (l letter) String() string { return fmt.Sprintf("%d:%.6q:%v", l.from, l.body, l.clear) }

// post is a reference model of the server next to the real one.
type post struct {
	s    *srv
	ids  []*zkidentity.FullIdentity
	c    []*conn             // live connection per user
	box  [][]letter          // not acknowledged, in order
	sent []map[uint32]letter // outstanding pushes per user: tag -> letter
	next []int               // next letter of box to be pushed
	off  []bool              // disabled
	n    int
	out  []string
}

func newPost() *post {
	p := &post{s: boot(nil), ids: []*zkidentity.FullIdentity{aliceID, bobID, carolID}}
	p.c = make([]*conn, 3)
	p.box = make([][]letter, 3)
	p.sent = make([]map[uint32]letter, 3)
	p.next = make([]int, 3)
	p.off = make([]bool, 3)
	return p
}

func (p *post) body() string {
	p.n++
	return strings.Repeat(fmt.Sprintf("%d", p.n%10), (p.n*5)%11) + fmt.Sprintf("#%d", p.n)
}

// sync reads what every user received and compares; replies are returned.
func (p *post) sync() (replies [][]rmsg) {
	replies = make([][]rmsg, 3)
	for u, c := range p.c {
		if c == nil {
			continue
		}
		ms := c.poll()
		if c.dead() {
			mc.Fail("the server dropped user %d", u)
		}
		p.take(u, ms, &replies[u])
		want := len(p.box[u]) - p.next[u]
		if want > 0 && len(p.sent[u]) < 32 {
			mc.Fail("user %d is not pushed %v", u, p.box[u][p.next[u]:])
		}
	}
	return
}

func (p *post) take(u int, ms []rmsg, rest *[]rmsg) {
	for _, m := range ms {
		if m.m.Command != rpc.TaggedCmdPush {
			*rest = append(*rest, m)
			continue
		}
		var pu rpc.Push
		m.into(&pu)
		l := letter{-1, string(pu.Payload), m.m.Cleartext}
		for i, id := range p.ids {
			if id.Public.Identity == pu.From {
				l.from = i
			}
		}
		if p.next[u] >= len(p.box[u]) {
			mc.Fail("user %d is pushed %v unexpectedly", u, l)
		}
		if w := p.box[u][p.next[u]]; w != l {
			mc.Fail("user %d is pushed %v, want %v", u, l, w)
		}
		if d := pu.Received - mc.PeekNano()/second; d < -3600 || d > 0 {
			mc.Fail("push says it was received at %d", pu.Received)
		}
		if _, dup := p.sent[u][m.m.Tag]; dup {
			mc.Fail("tag %d is used for two outstanding pushes", m.m.Tag)
		}
		p.sent[u][m.m.Tag] = l
		p.next[u]++
	}
}

func (p *post) login(u int) {
	c := p.s.dial(p.ids[u], 0)
	p.next[u] = 0
	p.sent[u] = map[uint32]letter{}
	p.c[u] = c
	if err := c.login(); err != nil {
		mc.Fail("login of %d: %v", u, err)
	}
}

func (p *post) logout(u int) {
	p.c[u].close()
	p.c[u] = nil
	mc.Quiesce()
}

func (p *post) send(from, to int, clear bool) {
	tag := uint32(20 + from)
	b := p.body()
	dst := [32]byte{1, 2, 3}
	if to >= 0 {
		dst = p.ids[to].Public.Identity
	}
	if clear {
		p.c[from].send(rpc.TaggedCmdProxy, tag, rpc.Proxy{To: dst, Payload: []byte(b)})
	} else {
		p.c[from].send(rpc.TaggedCmdCache, tag, rpc.Cache{To: dst, Payload: []byte(b)})
	}
	good := to >= 0 && !p.off[to]
	if good {
		p.box[to] = append(p.box[to], letter{from, b, clear})
	}
	r := p.sync()
	p.answered(r, from, tag, good, clear, dst, to >= 0 && p.off[to])
}

func (p *post) answered(r [][]rmsg, from int, tag uint32, good, clear bool, dst [32]byte, off bool) {
	for u := range r {
		if u != from && len(r[u]) > 0 {
			mc.Fail("user %d got %v", u, r[u][0].m)
		}
	}
	if len(r[from]) != 1 {
		mc.Fail("sender got %d answers", len(r[from]))
	}
	m := r[from][0]
	if m.m.Tag != tag {
		mc.Fail("answer has tag %d, want %d", m.m.Tag, tag)
	}
	if clear {
		var x rpc.ProxyReply
		if m.m.Command != rpc.TaggedCmdProxyReply {
			mc.Fail("answer is %v", m.m)
		}
		m.into(&x)
		if x.To != dst || (x.Error == "") != good {
			mc.Fail("proxy answer %+v, deliverable %v", x, good)
		}
		return
	}
	var x rpc.Acknowledge
	if m.m.Command != rpc.TaggedCmdAcknowledge {
		mc.Fail("answer is %v", m.m)
	}
	m.into(&x)
	if (x.Error == "") != good || (x.ErrorCode == rpc.ErrorCodeUserDisabled) != off {
		mc.Fail("cache answer %+v, deliverable %v disabled %v", x, good, off)
	}
}

// ack acknowledges the i-th outstanding push of u, counted from the end when
// negative.
func (p *post) ack(u, i int) bool {
	if p.c[u] == nil || len(p.sent[u]) == 0 {
		return false
	}
	var pend []letter
	for _, l := range p.box[u] {
		for _, s := range p.sent[u] {
			if s == l {
				pend = append(pend, l)
			}
		}
	}
	if i < 0 {
		i += len(pend)
	}
	if i < 0 || i >= len(pend) {
		return false
	}
	for t, s := range p.sent[u] {
		if s == pend[i] {
			delete(p.sent[u], t)
			for k, l := range p.box[u] {
				if l == s {
					p.box[u] = append(p.box[u][:k:k], p.box[u][k+1:]...)
					p.next[u]--
					break
				}
			}
			p.c[u].send(rpc.TaggedCmdAcknowledge, t, rpc.Acknowledge{})
			break
		}
	}
	if r := p.sync(); len(r[u]) > 0 {
		mc.Fail("acknowledgement is answered with %v", r[u][0].m)
	}
	return true
}

func (p *post) restart() {
	for u := range p.c {
		if p.c[u] != nil {
			p.logout(u)
		}
	}
	p.s.atRest()
	p.s = boot(nil)
	p.login(0)
	p.sync()
}

func (p *post) toggle(u int) {
	if p.c[u] != nil {
		p.logout(u)
	} else if !p.off[u] {
		p.login(u)
	}
	p.sync()
}

func (p *post) admin(cmd string, u int, off bool) {
	ad := p.s.admin()
	if r, ok := ad.adminDo(cmd, hexID(p.ids[u])); !ok || r.Error != "" {
		mc.Fail("%s: %v %v", cmd, ok, r.Error)
	}
	ad.close()
	mc.Quiesce()
	if off && p.c[u] != nil {
		p.c[u].close()
		p.c[u] = nil
	}
	p.off[u] = off
	p.sync()
}

// finish logs everybody in once more and compares the mailboxes.
func (p *post) finish() {
	p.restart()
	for u := range p.c {
		if p.off[u] {
			p.admin(socketapi.SCUserEnable, u, false)
		}
		if p.c[u] == nil {
			p.login(u)
			p.sync()
		}
		if p.next[u] != len(p.box[u]) {
			mc.Fail("user %d is missing %v", u, p.box[u][p.next[u]:])
		}
	}
	p.s.atRest(p.c...)
}

type pop struct {
	name string
	f    func(p *post) bool
}

func b04Alphabet() []pop {
	snd := func(f, t int, clear bool) func(p *post) bool {
		return func(p *post) bool {
			if p.c[f] == nil {
				return false
			}
			p.send(f, t, clear)
			return true
		}
	}
	return []pop{
		{"alice->bob", snd(0, 1, false)},
		{"bob->alice", snd(1, 0, false)},
		{"alice->carol", snd(0, 2, false)},
		{"alice=>bob clear", snd(0, 1, true)},
		{"alice->alice", snd(0, 0, false)},
		{"alice->nobody", snd(0, -1, false)},
		{"bob=>nobody clear", snd(1, -1, true)},
		{"alice acks oldest", func(p *post) bool { return p.ack(0, 0) }},
		{"bob acks newest", func(p *post) bool { return p.ack(1, -1) }},
		{"bob toggles", func(p *post) bool { p.toggle(1); return true }},
		{"carol toggles", func(p *post) bool { p.toggle(2); return true }},
		{"bob on/off", func(p *post) bool {
			if p.off[1] {
				p.admin(socketapi.SCUserEnable, 1, false)
			} else {
				p.admin(socketapi.SCUserDisable, 1, true)
			}
			return true
		}},
		{"restart", func(p *post) bool { p.restart(); return true }},
	}
}

func checkB04(c *mc.Ctx) {
	world()
	al := b04Alphabet()
	seqs(c, len(al), c.Pick(5, 6), func(seq []int) bool {
		var names []string
		for _, i := range seq {
			names = append(names, al[i].name)
		}
		key := strings.Join(names, "; ")
		state := ""
		setup()
		fail := mc.RunOnce(func() {
			p := newPost()
			p.login(0)
			p.login(1)
			p.sync()
			for _, i := range seq {
				if !al[i].f(p) {
					state = "-"
					return
				}
			}
			state = fmt.Sprint(p.box, p.next, p.off)
			p.finish()
		})
		if fail != "" {
			c.Violate("history", key, "%s: %s", key, fail)
			return false
		}
		if state != "-" {
			c.Eval(state)
			c.R.Traces++
		}
		return true
	})
	// what the sender is told is true even if the server dies right after
	for k, clear := range []bool{false, true} {
		for on := 0; on < 2; on++ {
			if !c.Mine(k*2 + on) {
				continue
			}
			setup()
			base := vfs.Cur.Clone()
			var log []vfs.Rec
			at := -1
			fail := mc.RunOnce(func() {
				p := newPost()
				p.login(0)
				if on == 1 {
					p.login(1)
				}
				p.sync()
				base = vfs.Cur.Clone()
				vfs.Cur.Log = nil
				p.s.conns[0].Record(func(b []byte) {
					if at < 0 {
						at = len(vfs.Cur.Log)
					}
				})
				p.send(0, 1, clear)
				log = vfs.Cur.Log
				p.s.atRest(p.c...)
			})
			if fail != "" || at < 0 {
				c.Violate("acknowledged", k, "clear %v online %d: %s", clear, on, fail)
				continue
			}
			n := vfs.Crashes(base, log[:at], 1, true, func(cr vfs.Crash) bool {
				if cr.After < at {
					return true
				}
				vfs.Cur = cr.FS
				fail := mc.RunOnce(func() {
					s := boot(nil)
					b := s.mustLogin(bobID, 1, "after a crash")
					if len(pushes(b.got)) != 1 {
						mc.Fail("%d messages in the mailbox", len(pushes(b.got)))
					}
					var pu rpc.Push
					pushes(b.got)[0].into(&pu)
					if pu.From != aliceID.Public.Identity || !strings.HasSuffix(string(pu.Payload), "#1") {
						mc.Fail("got %q", pu.Payload)
					}
					s.atRest(b)
				})
				if fail != "" {
					c.Violate("acknowledged", fmt.Sprint(k, on), "clear %v online %d: the sender is told the message was accepted, then %v: %s", clear, on, cr, fail)
					return false
				}
				c.Eval(fmt.Sprintf("crash %v %d %v", clear, on, cr))
				return true
			})
			c.R.Traces += n
		}
	}
	// disk errors: the answer tells the truth
	for k, clear := range []bool{false, true} {
		for f := 0; f < 40; f++ {
			if !c.Mine(k*40 + f) {
				continue
			}
			setup()
			hit := false
			fail := mc.RunOnce(func() {
				s := boot(nil)
				a := s.mustLogin(aliceID, 1, "at first")
				n := 0
				vfs.Cur.Fault = func(op, p string) error {
					n++
					if n-1 == f {
						hit = true
						return fmt.Errorf("disk error")
					}
					return nil
				}
				to := bobID.Public.Identity
				if clear {
					a.send(rpc.TaggedCmdProxy, 9, rpc.Proxy{To: to, Payload: []byte("x")})
				} else {
					a.send(rpc.TaggedCmdCache, 9, rpc.Cache{To: to, Payload: []byte("x")})
				}
				ms := a.poll()
				vfs.Cur.Fault = nil
				if len(ms) != 1 || ms[0].m.Tag != 9 {
					mc.Fail("got %d answers", len(ms))
				}
				ok := false
				if clear {
					var r rpc.ProxyReply
					ms[0].into(&r)
					ok = r.Error == ""
				} else {
					var r rpc.Acknowledge
					ms[0].into(&r)
					ok = r.Error == ""
				}
				b := s.mustLogin(bobID, 1, "afterwards")
				if ok && len(pushes(b.got)) != 1 {
					mc.Fail("acknowledged message is not in the mailbox")
				}
				c.Eval(fmt.Sprintf("disk error %v %v %d", clear, ok, len(pushes(b.got))))
				s.atRest(a, b)
			})
			if fail != "" {
				c.Violate("fault", fmt.Sprint(k, f), "clear %v, failing disk operation %d: %s", clear, f, fail)
				break
			}
			if !hit {
				break
			}
		}
	}
	// the same with the recipient online and messages waiting: whatever was
	// accepted is pushed at once, or the session ends and the next one gets it
	k := 0
	for _, old := range []int{0, 2} {
		for _, lasts := range []int{1, 3, 1000} {
			for f := 0; f < 80; f++ {
				k++
				if !c.Mine(k) {
					continue
				}
				setup()
				hit := false
				fail := mc.RunOnce(func() {
					s := boot(nil)
					a := s.mustLogin(aliceID, 1, "at first")
					n := 0
					fault := func(op, p string) error {
						n++
						if n > f && n <= f+lasts {
							hit = true
							return fmt.Errorf("disk error")
						}
						return nil
					}
					var want []string
					put := func(m string) {
						a.send(rpc.TaggedCmdCache, 9, rpc.Cache{To: bobID.Public.Identity, Payload: []byte(m)})
						ms := a.poll()
						if len(ms) != 1 || ms[0].m.Tag != 9 {
							mc.Fail("got %d answers", len(ms))
						}
						var r rpc.Acknowledge
						ms[0].into(&r)
						if r.Error == "" {
							want = append(want, m)
						}
					}
					got := func(c *conn) (l []string) {
						for _, m := range pushes(c.got) {
							var p rpc.Push
							m.into(&p)
							if !mayFail[string(p.Payload)] || has(want, string(p.Payload)) {
								l = append(l, string(p.Payload))
							}
						}
						return
					}
					for i := 0; i < old; i++ {
						put(fmt.Sprint("old", i))
					}
					b := s.dial(bobID, 0)
					if old == 0 {
						b.login()
						b.poll()
					}
					vfs.Cur.Fault = fault
					if old > 0 {
						if b.login() == nil {
							b.poll()
						}
					}
					put("x")
					put("y")
					b.poll()
					vfs.Cur.Fault = nil
					put("z")
					b.poll()
					dead := b.dead()
					if !dead && fmt.Sprint(got(b)) != fmt.Sprint(want) {
						mc.Fail("the online recipient got %v, want %v: %v", got(b), want, mc.Blocked())
					}
					b.close()
					mc.Quiesce()
					b = s.mustLogin(bobID, 1, "afterwards")
					if fmt.Sprint(got(b)) != fmt.Sprint(want) {
						mc.Fail("the next session got %v, want %v", got(b), want)
					}
					c.Eval(fmt.Sprintf("disk error online %v %v", dead, want))
					s.atRest(a, b)
				})
				if fail != "" {
					c.Violate("fault-online", fmt.Sprint(old, lasts, f), "%d messages waiting, %d failing disk operations from %d on: %s", old, lasts, f, fail)
					break
				}
				if !hit {
					break
				}
			}
		}
	}
	// schedules
	bound := c.Pick(3, 4)
	sc := func(name string, bound int, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setup, Body: body,
			Opt: mc.Options{FreeSwitchCost: true}})
	}
	cache := func(tag uint32, to *zkidentity.FullIdentity, b string) []byte {
		return enc(rpc.TaggedCmdCache, tag, rpc.Cache{To: to.Public.Identity, Payload: []byte(b)})
	}
	// check what bob has been pushed so far: exactly want, per sender in order
	box := func(c *conn, want ...string) (tags []uint32) {
		got := map[string]string{}
		seen := map[uint32]bool{}
		for _, m := range pushes(c.got) {
			var pu rpc.Push
			m.into(&pu)
			f := "?"
			for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
				if i.Public.Identity == pu.From {
					f = i.Public.Nick
				}
			}
			if seen[m.m.Tag] {
				mc.Fail("tag %d used twice", m.m.Tag)
			}
			seen[m.m.Tag] = true
			tags = append(tags, m.m.Tag)
			got[f] += string(pu.Payload) + " "
		}
		w := map[string]string{}
		for _, x := range want {
			f, b, _ := strings.Cut(x, ":")
			w[f] += b + " "
		}
		if fmt.Sprint(got) != fmt.Sprint(w) {
			mc.Fail("%s got %v, want %v", c.name, got, w)
		}
		return
	}
	acked := func(c *conn, tags ...uint32) {
		n := map[uint32]int{}
		for _, m := range c.got {
			if m.m.Command == rpc.TaggedCmdAcknowledge {
				var a rpc.Acknowledge
				m.into(&a)
				if a.Error != "" {
					mc.Fail("%s: %s", c.name, a.Error)
				}
				n[m.m.Tag]++
			}
		}
		for _, t := range tags {
			if n[t] != 1 {
				mc.Fail("%s: %d answers for tag %d", c.name, n[t], t)
			}
		}
	}
	sc("two-senders-and-a-login", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		d := s.mustLogin(carolID, 1, "at first")
		b := s.prep(bobID)
		a.kx.Write(cache(1, bobID, "a1"))
		a.kx.Write(cache(2, bobID, "a2"))
		d.kx.Write(cache(1, bobID, "c1"))
		race(b)
		a.poll()
		d.poll()
		b.poll()
		acked(a, 1, 2)
		acked(d, 1)
		box(b, "alice:a1", "alice:a2", "carol:c1")
		x.Outcome("ok")
		s.atRest(a, b, d)
	})
	sc("ack-while-receiving", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b := s.mustLogin(bobID, 1, "at first")
		a.kx.Write(cache(1, bobID, "a1"))
		b.poll()
		tags := box(b, "alice:a1")
		race(func() { a.kx.Write(cache(2, bobID, "a2")) }, func() { b.send(rpc.TaggedCmdAcknowledge, tags[0], rpc.Acknowledge{}) })
		a.poll()
		b.poll()
		acked(a, 1, 2)
		if got := pushes(b.got); len(got) != 2 {
			mc.Fail("%d pushes", len(got))
		}
		b.close()
		mc.Quiesce()
		n := s.mustLogin(bobID, 1, "again")
		box(n, "alice:a2")
		x.Outcome("ok")
		s.atRest(a, n)
	})
	sc("crossing", bound, func(x *mc.X) {
		s := boot(nil)
		a := s.mustLogin(aliceID, 1, "at first")
		b := s.mustLogin(bobID, 1, "at first")
		race(func() { a.kx.Write(cache(1, bobID, "a1")) }, func() { b.kx.Write(cache(1, aliceID, "b1")) })
		a.poll()
		b.poll()
		acked(a, 1)
		acked(b, 1)
		box(a, "bob:b1")
		box(b, "alice:a1")
		x.Outcome("ok")
		s.atRest(a, b)
	})
	sc("tag-exhaustion", c.Pick(1, 2), func(x *mc.X) {
		s := boot(nil)
		var want []string
		for i := 0; i < 34; i++ {
			m := fmt.Sprintf("m%02d", i)
			want = append(want, "alice:"+m)
			if _, err := s.sim.Account().Deliver(bobID.Public.Identity, aliceID.Public.Identity, []byte(m), false); err != nil {
				mc.Fail("%v", err)
			}
		}
		b := s.mustLogin(bobID, 1, "at first")
		tags := box(b, want[:32]...)
		race(func() {
			b.send(rpc.TaggedCmdAcknowledge, tags[7], rpc.Acknowledge{})
			b.send(rpc.TaggedCmdAcknowledge, tags[3], rpc.Acknowledge{})
		})
		b.poll()
		var all []string
		for _, m := range pushes(b.got) {
			var pu rpc.Push
			m.into(&pu)
			all = append(all, "alice:"+string(pu.Payload))
		}
		if fmt.Sprint(all) != fmt.Sprint(want) {
			mc.Fail("after two acknowledgements %v", all)
		}
		s.atRest(b)
		n := s.mustLogin(bobID, 1, "again")
		want = append(append(append([]string{}, want[:3]...), want[4:7]...), want[8:]...)
		box(n, want...)
		x.Outcome("ok")
		s.atRest(n)
	})
}
