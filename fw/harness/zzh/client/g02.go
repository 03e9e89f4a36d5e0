//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "G02", Level: "model_checking", Run: checkG02, Assumptions: []string{noCrypto, noTerm}})
}

// gmodel is the reference model of alice's groups.
type gmodel struct {
	a      *cli
	l      *link
	groups map[string][]string // administrator first
	gens   map[string]uint64
	online bool
	gen    uint64   // used by administrators other than alice
	out    []string // messages still to be sent
	n      int
}

func groupFS() *vfs.FS {
	fs := baseFS.Clone()
	putGroup(fs, "alice", "own", 5, aliceID, bobID, carolID)
	putGroup(fs, "alice", "bobs", 5, bobID, aliceID, carolID)
	return fs
}

func newGmodel() *gmodel {
	m := &gmodel{online: true, gen: 10}
	m.a, m.l = boot(aliceID, false)
	m.groups = map[string][]string{"own": {"alice", "bob", "carol"}, "bobs": {"bob", "alice", "carol"}}
	m.gens = map[string]uint64{"own": 5, "bobs": 5}
	return m
}

// describe renders a message for comparison with the model.
func describe(s sentMsg) string {
	d := "to " + s.nick + " "
	switch v := s.v.(type) {
	case *rpc.GroupKick:
		return d + fmt.Sprintf("kick %s parted=%v list %s %s", nicks([][32]byte{v.Member})[0], v.Parted, v.NewGroupList.Name, list(nicks(v.NewGroupList.Members)))
	case *rpc.GroupKill:
		return d + "kill " + v.Name
	case *rpc.GroupPart:
		return d + "part " + v.Name
	case *rpc.GroupMessage:
		return d + "gm " + v.Name + " " + v.Message + mode(v.Mode)
	case *rpc.PrivateMessage:
		return d + "pm " + v.Text + mode(v.Mode)
	case *rpc.GroupInvite:
		return d + "invite " + v.Name
	case *rpc.GroupJoin:
		return d + fmt.Sprintf("join %s %d", v.Name, v.Token)
	case *rpc.GroupList:
		return d + "list " + v.Name + " " + list(nicks(v.Members))
	case *rpc.JanitorMessage:
		return d + "janitor " + v.Command
	}
	return d + fmt.Sprintf("%T", s.v)
}

func mode(m rpc.MessageMode) string {
	switch m {
	case rpc.MessageModeNormal:
		return ""
	case rpc.MessageModeMe:
		return " me"
	}
	return fmt.Sprintf(" mode %d", m)
}

// settle checks what was sent and what is on disk.
func (m *gmodel) settle(extra []rmsg) { m.settled(extra, false) }

// settled tells whether the messages were queued for a while.
func (m *gmodel) settled(extra []rmsg, queued bool) {
	if m.online {
		ms := append(extra, m.l.poll()...)
		var got []string
		for _, s := range m.l.sent(ms) {
			got = append(got, describe(s))
			var gl *rpc.GroupList
			switch v := s.v.(type) {
			case *rpc.GroupKick:
				gl = &v.NewGroupList
			case *rpc.GroupList:
				gl = v
			case *rpc.GroupMessage:
				if g := m.a.group(v.Name); !queued && (g == nil || g.Generation != v.Generation) {
					mc.Fail("message carries generation %d, group is %+v", v.Generation, g)
				}
			}
			if gl != nil {
				if gl.Generation <= m.gens[gl.Name] {
					mc.Fail("list of %s sent with generation %d after %d", gl.Name, gl.Generation, m.gens[gl.Name])
				}
			}
		}
		same("messages sent", got, m.out)
		m.out = nil
	}
	var want []string
	for g, l := range m.groups {
		want = append(want, g+": "+list(l))
	}
	var got []string
	for _, f := range vfs.Cur.List(root("alice") + "/groupchat") {
		g := m.a.group(f)
		if g.Name != f {
			mc.Fail("group %s is in file %s", g.Name, f)
		}
		got = append(got, f+": "+list(nicks(g.Members)))
		if m.online || m.groups[f][0] != "alice" {
			m.gens[f] = g.Generation
		}
	}
	same("groups on disk", got, want)
}

func (m *gmodel) admin(g string) string {
	if l := m.groups[g]; len(l) > 0 {
		return l[0]
	}
	return ""
}

// cmd is a user command that sends the given messages.
func (m *gmodel) cmd(c string, out ...string) {
	m.out = append(m.out, out...)
	m.a.cmd("%s", c)
	m.settle(nil)
}

// tell is a message from a peer, who sends only if alice is online.
func (m *gmodel) tell(from string, v interface{}, out ...string) {
	if !m.online {
		return
	}
	m.out = append(m.out, out...)
	ms := m.l.tell(m.a.peer(idOf(from)), v)
	m.settle(ms)
}

func (m *gmodel) others(g string) []string { return without(m.groups[g], "alice") }

func (m *gmodel) list(g string, l ...string) rpc.GroupList {
	m.gen++
	return rpc.GroupList{Name: g, Generation: m.gen, Timestamp: 1600000000, Members: idsOf(l...)}
}

func (m *gmodel) kick(g, who string) {
	var out []string
	if m.admin(g) == "alice" {
		n := without(m.groups[g], who)
		for _, o := range m.others(g) {
			out = append(out, fmt.Sprintf("to %s kick %s parted=false list %s %s", o, who, g, list(n)))
		}
		m.groups[g] = n
	}
	m.cmd("/gc kick "+g+" "+who, out...)
}

func (m *gmodel) say(g, text string) {
	var out []string
	for _, o := range m.others(g) {
		out = append(out, "to "+o+" gm "+g+" "+text)
	}
	m.cmd("/gc m "+g+" "+text, out...)
}

// hear is a group message, shown only if it comes from a member.
func (m *gmodel) hear(from, g string) {
	m.n++
	text := fmt.Sprintf("said%d", m.n)
	m.tell(from, rpc.GroupMessage{Name: g, Generation: m.gens[g], Message: text})
	want := 0
	if m.online && has(m.groups[g], from) {
		want = 1
	}
	if n := m.a.shown("<" + from + "> " + text); n != want {
		mc.Fail("message from %s in group %s of %v shown %d times", from, g, m.groups[g], n)
	}
	if n := m.a.shown(text); n != want {
		mc.Fail("message from %s in group %s of %v shown %d times", from, g, m.groups[g], n)
	}
}

func (m *gmodel) offline() {
	if !m.online {
		return
	}
	m.l.c.Close()
	mc.Quiesce()
	m.online = false
}

func (m *gmodel) back() {
	if m.online {
		return
	}
	mc.Advance(int64(31 * time.Second))
	m.l = m.a.online(false)
	m.online = true
	// a ping gets the queue going
	var ms []rmsg
	for i := 0; i < 7; i++ {
		mc.Advance(int64(time.Second))
		for _, r := range m.l.poll() {
			if r.m.Command == rpc.TaggedCmdPing {
				m.l.send(rpc.TaggedCmdPong, r.m.Tag, rpc.Pong{})
				continue
			}
			ms = append(ms, r)
		}
	}
	m.settled(ms, true)
}

// restart loses what is queued.
func (m *gmodel) restart() {
	m.out = nil
	m.a, m.l = m.a.reboot(false)
	m.online = true
	m.settle(nil)
}

func (m *gmodel) end() string {
	m.back()
	for round := 0; round < 2; round++ {
		for _, g := range []string{"own", "bobs", "new", "x"} {
			m.say(g, fmt.Sprintf("probe%d", round))
		}
		if round == 0 {
			m.restart()
		}
	}
	var s []string
	for g, l := range m.groups {
		s = append(s, g+":"+list(l))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func checkG02(c *mc.Ctx) {
	world()
	fs := groupFS()
	evs := []ev[*gmodel]{
		{"/gc kick own bob", func(m *gmodel) { m.kick("own", "bob") }},
		{"/gc kick own carol", func(m *gmodel) { m.kick("own", "carol") }},
		{"/gc kick own dave", func(m *gmodel) { m.kick("own", "dave") }},
		{"/gc kick bobs carol", func(m *gmodel) { m.kick("bobs", "carol") }},
		{"/gc kick own alice", func(m *gmodel) { m.cmd("/gc kick own alice") }},
		{"/gc kill own", func(m *gmodel) {
			var out []string
			if m.online && m.admin("own") == "alice" {
				for _, o := range m.others("own") {
					out = append(out, "to "+o+" kill own")
				}
				delete(m.groups, "own")
			}
			m.cmd("/gc kill own", out...)
		}},
		{"/gc kill bobs", func(m *gmodel) { m.cmd("/gc kill bobs") }},
		{"/gc part bobs", func(m *gmodel) {
			var out []string
			if m.groups["bobs"] != nil {
				out = append(out, "to bob part bobs")
			}
			m.cmd("/gc part bobs", out...)
		}},
		{"/gc part own", func(m *gmodel) { m.cmd("/gc part own") }},
		{"/gc part bobs force", func(m *gmodel) {
			delete(m.groups, "bobs")
			m.cmd("/gc part bobs force")
		}},
		{"/gc new own", func(m *gmodel) {
			if m.groups["own"] == nil {
				m.groups["own"] = []string{"alice"}
				m.gens["own"] = 0
			}
			m.cmd("/gc new own")
		}},
		{"/gc new ../x", func(m *gmodel) { m.cmd("/gc new ../x") }},
		{"/gc m own hi", func(m *gmodel) { m.say("own", "hi") }},
		{"/gc m bobs hi", func(m *gmodel) { m.say("bobs", "hi") }},
		{"bob kicks carol from bobs", func(m *gmodel) {
			if m.online && m.admin("bobs") == "bob" {
				m.groups["bobs"] = []string{"bob", "alice"}
			}
			m.tell("bob", rpc.GroupKick{Member: carolID.Public.Identity, NewGroupList: m.list("bobs", "bob", "alice")})
		}},
		{"bob kicks alice from bobs", func(m *gmodel) {
			if m.online && m.admin("bobs") == "bob" {
				delete(m.groups, "bobs")
			}
			m.tell("bob", rpc.GroupKick{Member: aliceID.Public.Identity, NewGroupList: m.list("bobs", "bob", "carol")})
		}},
		{"carol kicks alice from bobs", func(m *gmodel) {
			m.tell("carol", rpc.GroupKick{Member: aliceID.Public.Identity, NewGroupList: m.list("bobs", "carol", "bob")})
		}},
		{"carol kicks bob from bobs", func(m *gmodel) {
			m.tell("carol", rpc.GroupKick{Member: bobID.Public.Identity, NewGroupList: m.list("bobs", "carol", "alice")})
		}},
		{"bob kicks carol from own", func(m *gmodel) {
			m.tell("bob", rpc.GroupKick{Member: carolID.Public.Identity, NewGroupList: m.list("own", "alice", "bob")})
		}},
		{"bob lists bobs with dave", func(m *gmodel) {
			if m.online && m.admin("bobs") == "bob" {
				m.groups["bobs"] = []string{"bob", "alice", "carol", "dave"}
			}
			m.tell("bob", m.list("bobs", "bob", "alice", "carol", "dave"))
		}},
		{"bob updates bobs without carol", func(m *gmodel) {
			if m.online && m.admin("bobs") == "bob" {
				m.groups["bobs"] = []string{"bob", "alice"}
			}
			m.tell("bob", rpc.GroupUpdate{NewGroupList: m.list("bobs", "bob", "alice")})
		}},
		{"carol lists bobs", func(m *gmodel) { m.tell("carol", m.list("bobs", "carol", "alice")) }},
		{"carol updates bobs", func(m *gmodel) { m.tell("carol", rpc.GroupUpdate{NewGroupList: m.list("bobs", "bob", "carol")}) }},
		{"bob lists own", func(m *gmodel) { m.tell("bob", m.list("own", "bob", "alice")) }},
		{"bob lists x", func(m *gmodel) { m.tell("bob", m.list("x", "bob", "alice")) }},
		{"bob kills bobs", func(m *gmodel) {
			if m.online && m.admin("bobs") == "bob" {
				delete(m.groups, "bobs")
			}
			m.tell("bob", rpc.GroupKill{Name: "bobs"})
		}},
		{"carol kills bobs", func(m *gmodel) { m.tell("carol", rpc.GroupKill{Name: "bobs"}) }},
		{"bob kills own", func(m *gmodel) { m.tell("bob", rpc.GroupKill{Name: "own"}) }},
		{"bob parts own", func(m *gmodel) { m.part("bob") }},
		{"carol parts own", func(m *gmodel) { m.part("carol") }},
		{"dave parts own", func(m *gmodel) { m.part("dave") }},
		{"carol parts bobs", func(m *gmodel) { m.tell("carol", rpc.GroupPart{Name: "bobs"}) }},
		{"dave joins own", func(m *gmodel) { m.tell("dave", rpc.GroupJoin{Name: "own", Token: 0}) }},
		{"bob speaks in bobs", func(m *gmodel) { m.hear("bob", "bobs") }},
		{"carol speaks in own", func(m *gmodel) { m.hear("carol", "own") }},
		{"carol speaks in bobs", func(m *gmodel) { m.hear("carol", "bobs") }},
		{"dave speaks in bobs", func(m *gmodel) { m.hear("dave", "bobs") }},
		{"dave speaks in own", func(m *gmodel) { m.hear("dave", "own") }},
		{"restart", func(m *gmodel) { m.restart() }},
		{"offline", func(m *gmodel) { m.offline() }},
		{"online", func(m *gmodel) { m.back() }},
	}
	histories(c, "groups", fs, evs, 2, newGmodel, (*gmodel).end)
	histories(c, "groups", fs, evs, 3, newGmodel, (*gmodel).end)
	if !c.Quick() {
		histories(c, "groups", fs, evs, 4, newGmodel, (*gmodel).end)
	}
	c.Note("alphabet", len(evs))
}

func (m *gmodel) part(who string) {
	var out []string
	if m.online && m.admin("own") == "alice" && has(m.groups["own"], who) {
		n := without(m.groups["own"], who)
		for _, o := range m.others("own") {
			out = append(out, fmt.Sprintf("to %s kick %s parted=true list own %s", o, who, list(n)))
		}
		m.groups["own"] = n
	}
	m.tell(who, rpc.GroupPart{Name: "own", Reason: "bye"}, out...)
}
