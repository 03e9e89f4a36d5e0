//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "G03", Level: "model_checking", Run: checkG03, Assumptions: []string{noCrypto, noTerm}})
}

// imodel adds invitations to the model of groups.
type imodel struct {
	*gmodel
	invites map[string]uint64 // "group nick" -> token, given out by alice
	spent   map[string]uint64 // tokens that were used or never existed
	joins   map[string]uint64 // "group nick" -> token, received by alice
}

func newImodel() *imodel {
	m := &imodel{gmodel: newGmodel(), invites: map[string]uint64{}, spent: map[string]uint64{}, joins: map[string]uint64{}}
	return m
}

// invite: one open invitation per group and contact who is no member yet.
func (m *imodel) invite(g, who string) {
	m.a.cmd("/gc invite %s %s", g, who)
	k := g + " " + who
	_, open := m.invites[k]
	want := 0
	if m.admin(g) == "alice" && !has(m.groups[g], who) && !open {
		want = 1
	}
	n := 0
	for _, s := range m.l.sent(m.l.poll()) {
		v, ok := s.v.(*rpc.GroupInvite)
		if !ok || s.nick != who || v.Name != g {
			mc.Fail("unexpected message %s", describe(s))
		}
		n++
		m.invites[k] = v.Token
	}
	if n != want {
		mc.Fail("%d invitations sent, want %d", n, want)
	}
	m.settle(nil)
	m.checkInvites()
}

// join: consumes the invitation of that contact to that group.
func (m *imodel) join(g, who string, token uint64) {
	var out []string
	t, open := m.invites[g+" "+who]
	if m.admin(g) == "alice" && open && t == token {
		delete(m.invites, g+" "+who)
		m.spent[g+" "+who] = token
		if !has(m.groups[g], who) {
			m.groups[g] = append(append([]string(nil), m.groups[g]...), who)
			for _, o := range m.others(g) {
				out = append(out, "to "+o+" list "+g+" "+list(m.groups[g]))
			}
		}
	}
	m.tell(who, rpc.GroupJoin{Name: g, Token: token}, out...)
	m.checkInvites()
}

// right is the token of an open invitation or the one that was used last.
func (m *imodel) right(g, who string) uint64 {
	if t, ok := m.invites[g+" "+who]; ok {
		return t
	}
	if t, ok := m.spent[g+" "+who]; ok {
		return t
	}
	return 1
}

func (m *imodel) received(g, from string, token uint64) {
	k := g + " " + from
	if _, seen := m.joins[k]; !seen && safe(g) {
		m.joins[k] = token
	}
	m.tell(from, rpc.GroupInvite{Name: g, Members: []string{from}, Token: token, Description: "come"})
	m.checkInvites()
}

// safe group names are those an invitation may be accepted for.
func safe(g string) bool { return !strings.ContainsAny(g, "/ ") && g != ".." }

func (m *imodel) accept(g string, token uint64) {
	var out []string
	if m.groups[g] == nil {
		for _, from := range []string{"bob", "carol", "dave"} {
			if t, ok := m.joins[g+" "+from]; ok && t == token {
				delete(m.joins, g+" "+from)
				m.groups[g] = []string{from}
				m.gens[g] = 0
				out = append(out, fmt.Sprintf("to %s join %s %d", from, g, token))
				break
			}
		}
	}
	m.cmd(fmt.Sprintf("/gc join %s %d", g, token), out...)
	m.checkInvites()
}

// listed compares what the client lists.
func (m *imodel) listed(what string, want map[string]uint64) {
	n := len(m.a.screen()[0])
	m.a.cmd("/w 0")
	m.a.cmd("/list %s", what)
	var got, w []string
	for _, s := range m.a.screen()[0][n:] {
		f := strings.Fields(s)
		if len(f) >= 4 && strings.HasSuffix(f[1], ":") {
			got = append(got, strings.TrimSuffix(f[1], ":")+" "+f[2]+" "+f[3])
		}
	}
	for k, t := range want {
		w = append(w, fmt.Sprintf("%s %d", k, t))
	}
	same(what+" listed", got, w)
}

func (m *imodel) checkInvites() {
	m.listed("invites", m.invites)
	m.listed("joins", m.joins)
}

func (m *imodel) adminList(from string, l ...string) {
	g := "fun"
	if m.online && m.admin(g) == from {
		m.groups[g] = l
	}
	m.tell(from, m.list(g, l...))
}

func (m *imodel) end() string {
	for round := 0; round < 2; round++ {
		for _, g := range []string{"own", "two", "fun", "bobs"} {
			m.say(g, fmt.Sprintf("probe%d", round))
		}
		if round == 0 {
			m.restart()
			m.checkInvites()
		}
	}
	var s []string
	for g, l := range m.groups {
		s = append(s, g+":"+list(l))
	}
	sort.Strings(s)
	return fmt.Sprint(strings.Join(s, " "), len(m.invites), len(m.joins))
}

func checkG03(c *mc.Ctx) {
	world()
	fs := groupFS()
	putGroup(fs, "alice", "two", 3, aliceID, carolID)
	start := func() *imodel {
		m := newImodel()
		m.groups["two"] = []string{"alice", "carol"}
		m.gens["two"] = 3
		return m
	}
	evs := []ev[*imodel]{
		{"/gc invite own dave", func(m *imodel) { m.invite("own", "dave") }},
		{"/gc invite own bob", func(m *imodel) { m.invite("own", "bob") }},
		{"/gc invite two dave", func(m *imodel) { m.invite("two", "dave") }},
		{"/gc invite two bob", func(m *imodel) { m.invite("two", "bob") }},
		{"/gc invite bobs dave", func(m *imodel) { m.invite("bobs", "dave") }},
		{"dave joins own", func(m *imodel) { m.join("own", "dave", m.right("own", "dave")) }},
		{"dave joins own with token of two", func(m *imodel) { m.join("own", "dave", m.right("two", "dave")) }},
		{"bob joins two with token of dave", func(m *imodel) { m.join("two", "bob", m.right("two", "dave")) }},
		{"bob joins two", func(m *imodel) { m.join("two", "bob", m.right("two", "bob")) }},
		{"dave joins two", func(m *imodel) { m.join("two", "dave", m.right("two", "dave")) }},
		{"carol joins own with token of dave", func(m *imodel) { m.join("own", "carol", m.right("own", "dave")) }},
		{"/gc kick own bob", func(m *imodel) { m.kick("own", "bob") }},
		{"/gc kick own dave", func(m *imodel) { m.kick("own", "dave") }},
		{"/gc kill two", func(m *imodel) {
			var out []string
			if m.groups["two"] != nil {
				for _, o := range m.others("two") {
					out = append(out, "to "+o+" kill two")
				}
				delete(m.groups, "two")
			}
			m.cmd("/gc kill two", out...)
		}},
		{"bob invites to fun with 7", func(m *imodel) { m.received("fun", "bob", 7) }},
		{"carol invites to fun with 8", func(m *imodel) { m.received("fun", "carol", 8) }},
		{"dave invites to own with 9", func(m *imodel) { m.received("own", "dave", 9) }},
		{"dave invites to fun with 18446744073709551615", func(m *imodel) { m.received("fun", "dave", 18446744073709551615) }},
		{"/gc join fun 7", func(m *imodel) { m.accept("fun", 7) }},
		{"/gc join fun 8", func(m *imodel) { m.accept("fun", 8) }},
		{"/gc join fun 9", func(m *imodel) { m.accept("fun", 9) }},
		{"/gc join own 9", func(m *imodel) { m.accept("own", 9) }},
		{"/gc join fun 18446744073709551615", func(m *imodel) { m.accept("fun", 18446744073709551615) }},
		{"bob lists fun", func(m *imodel) { m.adminList("bob", "bob", "alice", "dave") }},
		{"carol lists fun", func(m *imodel) { m.adminList("carol", "carol", "alice") }},
		{"dave speaks in own", func(m *imodel) { m.hear("dave", "own") }},
		{"dave speaks in fun", func(m *imodel) { m.hear("dave", "fun") }},
		{"bob speaks in fun", func(m *imodel) { m.hear("bob", "fun") }},
		{"restart", func(m *imodel) { m.restart() }},
	}
	hostileNames(c, fs)
	histories(c, "invites", fs, evs, 2, start, (*imodel).end)
	histories(c, "invites", fs, evs, 3, start, (*imodel).end)
	// longer ones of the essential events
	var core []ev[*imodel]
	for _, e := range evs {
		switch e.name {
		case "/gc invite own dave", "dave joins own", "/gc kick own dave", "bob joins two with token of dave", "/gc invite two dave",
			"bob invites to fun with 7", "carol invites to fun with 8", "/gc join fun 7", "/gc join fun 8", "restart":
			core = append(core, e)
		}
	}
	histories(c, "core", fs, core, 4, start, (*imodel).end)
	if !c.Quick() {
		histories(c, "core", fs, core, 5, start, (*imodel).end)
		histories(c, "invites", fs, evs, 4, start, (*imodel).end)
	}
	c.Note("alphabet", len(evs))
}

// hostileNames: whatever name an invitation or a new group has, no file
// changes except those of groups and invitations.
func hostileNames(c *mc.Ctx, fs *vfs.FS) {
	names := []string{"..", ".", "", "/", "../x", "../groupchat", "a/b", "../inbound/x", "/c/alice/evil", "../zkclient.conf", "own/../../x",
		"own", "x\x00y", "a b", "new\nline", "[own]", "a=b", "bobs", "../" + tools.ZKCServerFilename, strings.Repeat("n", 300)}
	for i, n := range names {
		if !c.Mine(i) {
			continue
		}
		n := n
		setupOn(fs)()
		if f := mc.RunOnce(func() {
			a, l := boot(aliceID, false)
			bob := a.peer(bobID)
			outside := func() (out []string) {
				for _, f := range vfs.Cur.Files("/") {
					if strings.Contains(f, "/logs/") || strings.HasSuffix(f, ".log") || strings.HasSuffix(f, "/ratchet.xdr") {
						continue
					}
					b, _ := vfs.Cur.Read(f)
					out = append(out, fmt.Sprintf("%s %x", f, b))
				}
				return
			}
			before := outside()
			l.tell(bob, rpc.GroupInvite{Name: n, Members: []string{"bob"}, Token: 7})
			a.cmd("/gc join %s 7", n)
			l.sent(l.poll())
			l.tell(bob, rpc.GroupList{Name: n, Generation: 90, Members: idsOf("bob", "alice", "dave")})
			a.cmd("/gc new %s", n)
			l.sent(l.poll())
			l.tell(bob, rpc.GroupKill{Name: n})
			old := map[string]bool{}
			for _, f := range before {
				old[f] = true
			}
			for _, f := range outside() {
				p := strings.SplitN(f, " ", 2)[0]
				if old[f] {
					delete(old, f)
					continue
				}
				d := strings.TrimPrefix(p, root("alice")+"/groupchat/")
				if d != p && !strings.Contains(d, "/") || strings.Contains(p, "/invitesdb") || strings.Contains(p, "/invites") || strings.Contains(p, "/joins") {
					for o := range old {
						if strings.HasPrefix(o, p+" ") {
							delete(old, o)
							if strings.HasSuffix(p, "/own") {
								mc.Fail("the user's own group changed")
							}
						}
					}
					continue
				}
				mc.Fail("file %s written", p)
			}
			for o := range old {
				if !strings.HasPrefix(o, root("alice")+"/groupchat/"+n+" ") || n == "own" {
					mc.Fail("file %s lost or changed", strings.SplitN(o, " ", 2)[0])
				}
			}
			a.alive(l, bob, "still here")
		}); f != "" {
			c.Violate("name:"+strip(f), fmt.Sprintf("%q", n), "invitation to a group named %q: %s", short(n), strings.SplitN(f, "\n", 2)[0])
		}
		c.Eval("hostile names")
	}
}
