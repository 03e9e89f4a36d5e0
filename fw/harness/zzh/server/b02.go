//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zz/mc"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	mc.Register(&mc.Check{ID: "B02", Level: "model_checking", Run: checkB02, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E02 checks the real one)"}})
}

type cop struct {
	name string
	cmd  string
	tag  uint32
	p    interface{}
	// what the server must do: reply command, or "" for none
	reply string
	bad   bool // a protocol violation: the session may end
	ack   bool
}

func b02Alphabet() []cop {
	bobI := bobID.Public.Identity
	return []cop{
		{name: "ping3", cmd: rpc.TaggedCmdPing, tag: 3, p: rpc.Ping{}, reply: rpc.TaggedCmdPong},
		{name: "ping31", cmd: rpc.TaggedCmdPing, tag: 31, p: rpc.Ping{}, reply: rpc.TaggedCmdPong},
		{name: "ping32", cmd: rpc.TaggedCmdPing, tag: 32, p: rpc.Ping{}, bad: true},
		{name: "pingmax", cmd: rpc.TaggedCmdPing, tag: 0xffffffff, p: rpc.Ping{}, bad: true},
		{name: "ack0", cmd: rpc.TaggedCmdAcknowledge, tag: 0, p: rpc.Acknowledge{}, ack: true},
		{name: "ack1", cmd: rpc.TaggedCmdAcknowledge, tag: 1, p: rpc.Acknowledge{}, ack: true},
		{name: "ack31", cmd: rpc.TaggedCmdAcknowledge, tag: 31, p: rpc.Acknowledge{}, ack: true},
		{name: "ack32", cmd: rpc.TaggedCmdAcknowledge, tag: 32, p: rpc.Acknowledge{}, bad: true},
		{name: "cache", cmd: rpc.TaggedCmdCache, tag: 0, p: rpc.Cache{To: bobI, Payload: []byte("hi")}, reply: rpc.TaggedCmdAcknowledge},
		{name: "cacheself", cmd: rpc.TaggedCmdCache, tag: 0, p: rpc.Cache{To: aliceID.Public.Identity, Payload: []byte("self")}, reply: rpc.TaggedCmdAcknowledge},
		{name: "cachenobody", cmd: rpc.TaggedCmdCache, tag: 2, p: rpc.Cache{Payload: []byte("hi")}, reply: rpc.TaggedCmdAcknowledge},
		{name: "proxy", cmd: rpc.TaggedCmdProxy, tag: 1, p: rpc.Proxy{To: bobI, Payload: []byte("reset")}, reply: rpc.TaggedCmdProxyReply},
		{name: "rendezvous", cmd: rpc.TaggedCmdRendezvous, tag: 4, p: rpc.Rendezvous{Blob: []byte("blob"), Expiration: "24"}, reply: rpc.TaggedCmdRendezvousReply},
		{name: "pull", cmd: rpc.TaggedCmdRendezvousPull, tag: 4, p: rpc.RendezvousPull{Token: "1"}, reply: rpc.TaggedCmdRendezvousPullReply},
		{name: "find", cmd: rpc.TaggedCmdIdentityFind, tag: 5, p: rpc.IdentityFind{Nick: "bob"}, reply: rpc.TaggedCmdIdentityFindReply},
		{name: "push", cmd: rpc.TaggedCmdPush, tag: 6, p: rpc.Push{Payload: []byte("x")}, bad: true},
		{name: "pong", cmd: rpc.TaggedCmdPong, tag: 6, p: rpc.Pong{}, bad: true},
		{name: "welcome", cmd: rpc.SessionCmdWelcome, tag: 0, p: rpc.Welcome{}, bad: true},
		{name: "empty", cmd: "", tag: 0, bad: true},
		{name: "unknown", cmd: "bogus", tag: 7, p: rpc.Ping{}, bad: true},
	}
}

func pushes(ms []rmsg) (p []rmsg) {
	for _, m := range ms {
		if m.m.Command == rpc.TaggedCmdPush {
			p = append(p, m)
		}
	}
	return
}

func checkB02(c *mc.Ctx) {
	world()
	al := b02Alphabet()
	// 1: sequences of well formed messages
	seqs(c, len(al), c.Pick(4, 5), func(seq []int) bool {
		var names []string
		for _, i := range seq {
			names = append(names, al[i].name)
		}
		key := strings.Join(names, " ")
		out := ""
		setup()
		fail := mc.RunOnce(func() {
			s := boot(nil)
			mail := []string{"m0", "m1"}
			for _, p := range mail {
				if _, err := s.sim.Account().Deliver(aliceID.Public.Identity, bobID.Public.Identity, []byte(p), false); err != nil {
					mc.Fail("deliver: %v", err)
				}
			}
			a := s.dial(aliceID, 0)
			if err := a.login(); err != nil {
				mc.Fail("login: %v", err)
			}
			held := map[uint32]string{} // tag -> payload not acknowledged
			take := func(ms []rmsg) {
				for _, m := range pushes(ms) {
					var p rpc.Push
					m.into(&p)
					if _, dup := held[m.m.Tag]; dup {
						mc.Fail("tag %d is used for two outstanding pushes", m.m.Tag)
					}
					held[m.m.Tag] = string(p.Payload)
				}
			}
			take(a.poll())
			for _, i := range seq {
				o := al[i]
				if a.send(o.cmd, o.tag, o.p) != nil {
					break
				}
				if o.ack && !a.dead() {
					if p, ok := held[o.tag]; ok {
						delete(held, o.tag)
						for k, m := range mail {
							if m == p {
								mail = append(mail[:k:k], mail[k+1:]...)
								break
							}
						}
					}
				}
				if o.name == "cacheself" {
					mail = append(mail, "self")
				}
				ms := a.poll()
				take(ms)
				n := 0
				for _, m := range ms {
					if m.m.Command == rpc.TaggedCmdPush {
						continue
					}
					n++
					if m.m.Command != o.reply || m.m.Tag != o.tag {
						mc.Fail("after %s the server sent %s with tag %d", o.name, m.m.Command, m.m.Tag)
					}
				}
				if o.bad {
					if n > 0 {
						mc.Fail("server answered %s", o.name)
					}
					break
				}
				if o.reply != "" && n != 1 {
					mc.Fail("%s got %d answers", o.name, n)
				}
				if a.dead() {
					mc.Fail("server dropped the session after %s", o.name)
				}
			}
			ok, ms := a.alive()
			take(ms)
			if !ok && !a.dead() {
				mc.Fail("session hangs: %v", mc.Blocked())
			}
			out = fmt.Sprintf("%v %d", ok, len(held))
			s.atRest(a)
			b := s.mustLogin(aliceID, 1, "again")
			var got []string
			for _, m := range pushes(b.got) {
				var p rpc.Push
				m.into(&p)
				got = append(got, string(p.Payload))
			}
			if strings.Join(got, ",") != strings.Join(mail, ",") {
				mc.Fail("after the session mailbox holds %v, want %v", got, mail)
			}
			s.atRest(b)
		})
		if fail != "" {
			c.Violate("sequence", key, "%s: %s", key, fail)
			return false
		}
		c.Eval(key + " -> " + out)
		c.R.Traces++
		c.Sample(map[string]string{"sequence": key, "outcome": out})
		return true
	})
	// 2: damaged messages
	bytesList := [][]byte{}
	var labels []string
	for _, o := range al {
		if o.bad {
			continue
		}
		m := enc(o.cmd, o.tag, o.p)
		for i := range m {
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				if m[i] == v {
					continue
				}
				if c.Quick() && v == 1 {
					continue
				}
				d := append([]byte(nil), m...)
				d[i] = v
				bytesList = append(bytesList, d)
				labels = append(labels, fmt.Sprintf("%s byte %d = %#x", o.name, i, v))
			}
		}
		for i := 0; i < len(m); i++ {
			bytesList = append(bytesList, m[:i])
			labels = append(labels, fmt.Sprintf("%s cut to %d bytes", o.name, i))
		}
		bytesList = append(bytesList, append(append([]byte(nil), m...), 0, 0, 0, 9))
		labels = append(labels, o.name+" extended")
	}
	for i, b := range bytesList {
		if !c.Mine(i) || c.Expired() {
			continue
		}
		setup()
		out := ""
		fail := mc.RunOnce(func() {
			s := boot(nil)
			o := s.mustLogin(bobID, 1, "at first")
			a := s.mustLogin(aliceID, 1, "at first")
			a.kx.Write(b)
			ok, _ := a.alive()
			if !ok && !a.dead() {
				mc.Fail("session hangs: %v", mc.Blocked())
			}
			if ok2, _ := o.alive(); !ok2 {
				mc.Fail("another user's session died")
			}
			out = fmt.Sprint(ok)
			s.atRest(a, o)
		})
		if fail != "" {
			c.Violate("damaged", labels[i], "%s: %s", labels[i], fail)
			return
		}
		c.Eval("damaged: " + out)
	}
	// 3: damaged bytes before a session exists
	var pre [][]byte
	add := func(v ...interface{}) {
		var b bytes.Buffer
		for _, x := range v {
			xdr.Marshal(&b, x)
		}
		pre = append(pre, b.Bytes())
	}
	add(rpc.InitialCmdIdentify)
	add(rpc.InitialCmdSession)
	add("bogus")
	add("")
	add(rpc.InitialCmdCreateAccount, rpc.CreateAccount{Token: "t", PublicIdentity: newPub("zed")})
	k := 0
	for _, p := range pre {
		for i := 0; i <= len(p); i++ {
			muts := [][]byte{p[:i]}
			if i < len(p) {
				for _, v := range []byte{0, 0x7f, 0xff} {
					d := append([]byte(nil), p...)
					d[i] = v
					muts = append(muts, d)
				}
			}
			for _, b := range muts {
				k++
				if !c.Mine(k) || c.Expired() {
					continue
				}
				setup()
				set := mkSettings()
				set.AllowIdentify = true
				set.CreatePolicy = "yes"
				fail := mc.RunOnce(func() {
					s := boot(set)
					a := s.dial(nil, 0)
					a.c.Write(b)
					mc.Quiesce()
					s.atRest(a)
					s.atRest(s.mustLogin(bobID, 1, "after garbage on another connection"))
				})
				if fail != "" {
					c.Violate("presession", fmt.Sprintf("%q", b), "sending %.80q: %s", b, fail)
					return
				}
				c.Eval("presession")
			}
		}
	}
	// 4: messages of every size around the limit
	k = 0
	for _, kind := range []string{"cache", "cache to offline", "proxy", "proxy to offline", "rendezvous", "create"} {
		for _, max := range []uint64{4096, 4099, rpc.PropMaxMsgSizeDefault} {
			for d := 0; d <= 170; d++ {
				if d%4 != 0 && c.Quick() && max != 4096 {
					continue
				}
				if kind == "rendezvous" && max != rpc.PropMaxMsgSizeDefault {
					continue
				}
				k++
				if !c.Mine(k) || c.Expired() {
					continue
				}
				setup()
				out := ""
				fail := mc.RunOnce(func() { out = b02Size(kind, max, d) })
				if fail != "" {
					c.Violate("size", fmt.Sprintf("%s %d %d", kind, max, d), "%s of %d bytes less than the maximum message size %d: %s", kind, d, max, fail)
					return
				}
				c.Eval("size: " + kind + " " + out)
			}
		}
	}
	c.R.States = c.R.Evals
}

// b02Size sends something with a payload of d bytes less than the maximum
// message size: it is refused, or it arrives; either way everyone else goes on
// as before.
func b02Size(kind string, max uint64, d int) string {
	set := mkSettings()
	set.MaxMsgSize = max
	set.CreatePolicy = "yes"
	s := boot(set)
	bob := s.mustLogin(bobID, 1, "at first")
	a := s.mustLogin(aliceID, 1, "at first")
	if strings.HasSuffix(kind, "offline") {
		bob.close()
		mc.Quiesce()
	}
	a.kx.MaxMessageSize += 1000
	n := int(max) - d
	if kind == "rendezvous" {
		n = 4096 + 20 - d // blobs have a limit of their own
	}
	pay := bytes.Repeat([]byte{'x'}, n)
	var reply string
	for _, m := range bob.poll() {
		mc.Fail("got %v for no reason", m.m.Command)
	}
	ok := false
	want := []string{}
	got := func(ms []rmsg) (l []string) {
		for _, m := range pushes(ms) {
			var p rpc.Push
			m.into(&p)
			if bytes.Equal(p.Payload, pay) {
				l = append(l, "big")
			} else {
				l = append(l, string(p.Payload[:min(len(p.Payload), 20)]))
			}
		}
		return
	}
	switch {
	case strings.HasPrefix(kind, "cache"):
		a.send(rpc.TaggedCmdCache, 3, rpc.Cache{To: bobID.Public.Identity, Payload: pay})
		for _, m := range a.poll() {
			var p rpc.Acknowledge
			m.into(&p)
			reply = m.m.Command
			ok = p.Error == ""
		}
	case strings.HasPrefix(kind, "proxy"):
		a.send(rpc.TaggedCmdProxy, 3, rpc.Proxy{To: bobID.Public.Identity, Payload: pay})
		for _, m := range a.poll() {
			var p rpc.ProxyReply
			m.into(&p)
			reply = m.m.Command
			ok = p.Error == ""
		}
	case kind == "rendezvous":
		a.send(rpc.TaggedCmdRendezvous, 3, rpc.Rendezvous{Blob: pay, Expiration: "1"})
		tok := ""
		for _, m := range a.poll() {
			var p rpc.RendezvousReply
			m.into(&p)
			reply = m.m.Command
			ok = p.Error == ""
			tok = p.Token
		}
		if ok {
			bob.send(rpc.TaggedCmdRendezvousPull, 3, rpc.RendezvousPull{Token: tok})
			n := 0
			for _, m := range bob.poll() {
				var p rpc.RendezvousPullReply
				m.into(&p)
				n++
				if p.Error != "" || !bytes.Equal(p.Blob, pay) {
					mc.Fail("the blob that was accepted cannot be pulled: %s", p.Error)
				}
			}
			if n != 1 {
				mc.Fail("no answer to the request for the blob that was accepted")
			}
		}
	case kind == "create":
		n := s.dial(nil, 0)
		n.put(rpc.InitialCmdCreateAccount)
		n.put(rpc.CreateAccount{PublicIdentity: newPub("zed"), Token: string(pay)})
		mc.Quiesce()
		n.close()
		mc.Quiesce()
	}
	alive, ms := a.alive()
	if len(ms) > 0 {
		mc.Fail("unexpected %v", ms[0].m.Command)
	}
	if !alive && !a.dead() {
		mc.Fail("the sender's session hangs: %v", mc.Blocked())
	}
	if !alive && reply != "" {
		mc.Fail("the sender got an answer and was thrown out")
	}
	if alive && reply == "" && kind != "create" {
		mc.Fail("no answer")
	}
	if ok && kind != "rendezvous" {
		want = append(want, "big")
	}
	if !alive {
		a = s.mustLogin(aliceID, 1, "again")
	}
	a.send(rpc.TaggedCmdCache, 4, rpc.Cache{To: bobID.Public.Identity, Payload: []byte("next")})
	a.poll()
	want = append(want, "next")
	if !strings.HasSuffix(kind, "offline") {
		alive, ms := bob.alive()
		if !alive {
			mc.Fail("the recipient's session died")
		}
		if g := got(ms); fmt.Sprint(g) != fmt.Sprint(want) {
			mc.Fail("the recipient got %v, want %v", g, want)
		}
		bob.close()
		mc.Quiesce()
	}
	// nothing was acknowledged
	b := s.mustLogin(bobID, 1, "again")
	if g := got(b.got); fmt.Sprint(g) != fmt.Sprint(want) {
		mc.Fail("the recipient got %v at the next login, want %v", g, want)
	}
	s.atRest(a, bob, b)
	return fmt.Sprintf("%s %v %v", reply, ok, alive)
}
