//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/sntrup4591761"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vsecretbox"
	"golang.org/x/crypto/nacl/secretbox"
)

func init() {
	mc.Register(&mc.Check{ID: "G07", Level: "fault_enumeration", Run: checkG07, Assumptions: []string{noCrypto, noTerm,
		"the server is a model that stores, forwards and acknowledges (B01-B08 check the real one)",
		"directory changes reach the disk in order; file contents reach it when synced"},
		Rule: "one crash per history: before every change a client makes to its files or sends, within every write, with every loss of unsynced contents"})
}

// plan is a crash of one of the clients of a hub.
type plan struct {
	who  string
	at   int // at this operation
	torn int // 0: before it, 1..4: after a part of the write
	loss int // which of the possible losses of unsynced data
	n    int // operations so far

	hit    bool
	step   int
	op     string
	tears  bool // the operation can be torn
	losses int
	done   bool
}

func (p *plan) String() string {
	s := fmt.Sprintf("%s dies before its operation %d (%s)", p.who, p.at, p.op)
	if p.torn > 0 {
		s += fmt.Sprintf(" but after %s of it", []string{"", "a byte", "a half", "nearly all", "some parts"}[p.torn])
	}
	if p.loss > 0 {
		s += fmt.Sprintf(" with loss %d", p.loss)
	}
	return s
}

// arm makes the client die.
func (h *hub) arm(p *plan) {
	h.plan = p
	mine := func(path string) bool { return strings.HasPrefix(path, root(p.who)+"/") }
	last := ""
	die := func() {
		p.hit = true
		mc.Die()
	}
	next := func(op string) bool {
		if p.hit || mc.Group() != h.sides[p.who].c.proc {
			return false
		}
		if strings.HasPrefix(op, "write ") && op == last {
			return false // one of many writes to a new file
		}
		last = op
		p.n++
		if p.n != p.at {
			return false
		}
		p.op, p.step = op, h.step
		return true
	}
	mcnet.OnWrite = func(name string) {
		if next("send") && p.torn == 0 {
			die()
		}
	}
	torn, nth := "", 0
	vfs.Cur.OnMut = func(op, path string) {
		if !mine(path) || !next(op+" "+strings.TrimPrefix(path, root(p.who))) {
			return
		}
		if p.torn == 0 {
			p.tears = op == "write"
			die()
		}
		torn = path
	}
	vfs.Cur.Torn = func(path string, n int) int {
		if torn == "" || p.hit || path != torn {
			return -1
		}
		if p.torn == 4 { // after a few of the writes
			if nth++; nth < 5 {
				return -1
			}
		}
		torn = ""
		p.hit = true
		k := 1
		switch p.torn {
		case 2:
			k = n / 2
		case 3:
			k = n - 1
		}
		if k < 1 || k >= n {
			k = n
		}
		return k
	}
}

// revive starts a client again that has died.
func (h *hub) revive() bool {
	p := h.plan
	if p == nil || !p.hit || p.done {
		return false
	}
	p.done = true
	s := h.sides[p.who]
	if s.l != nil { // what was sent arrives
		for _, m := range s.l.read() {
			if s.serve(m) {
				break
			}
		}
	}
	s.c.kill()
	ls := vfs.Cur.Losses(root(p.who))
	p.losses = len(ls)
	if p.loss > 0 && p.loss < len(ls) {
		quiet := vfs.Cur.Quiet
		vfs.Cur = ls[p.loss].FS
		vfs.Cur.Quiet = quiet
	}
	mcnet.OnWrite, vfs.Cur.OnMut, vfs.Cur.Torn = nil, nil, nil
	s.again()
	return true
}

// flow07 is a history in which a client dies.
type flow07 struct {
	key   string
	fs    *vfs.FS
	dir   bool
	nicks []string
	steps []step
	end   func(h *hub, a, b *side) string
}

// sealing is something that was encrypted with a key.
type sealing struct {
	key [32]byte
	box []byte
}

// watch records which keys messages are encrypted with.
func (h *hub) watch() {
	h.used = map[[32]byte][]byte{}
	vsecretbox.OnSeal = func(key *[32]byte, nonce *[24]byte, msg []byte) {
		h.sealed = append(h.sealed, sealing{*key, secretbox.Seal(nil, msg, nonce, key)})
	}
}

// fresh demands that no key has encrypted two messages.
func (h *hub) fresh(payload []byte) {
	for _, s := range h.sealed {
		if bytes.HasSuffix(payload, s.box) {
			switch len(payload) - len(s.box) {
			case 24, 24 + sntrup4591761.CiphertextSize:
				continue // a step of a key exchange
			}
			if old, ok := h.used[s.key]; ok && !bytes.Equal(old, s.box) {
				mc.Fail("two messages are encrypted with the same key")
			}
			h.used[s.key] = s.box
		}
	}
	if len(h.sealed) > 20 {
		h.sealed = h.sealed[len(h.sealed)-20:]
	}
}

// dies runs a history with one crash and tells whether it took place.
func dies(c *mc.Ctx, f flow07, p *plan) bool {
	setupOn(f.fs)()
	where := "start"
	class := ""
	if e := mc.RunOnce(func() {
		h := newHub(f.dir, f.nicks...)
		a, b := h.sides[f.nicks[0]], h.sides[f.nicks[1]]
		h.watch()
		h.arm(p)
		for i, s := range f.steps {
			where = s.name
			h.step = i
			s.do(h, a, b)
		}
		where = "end"
		mcnet.OnWrite, vfs.Cur.OnMut, vfs.Cur.Torn = nil, nil, nil
		if !p.hit {
			class = "no crash"
			if p.at != 1<<30 {
				return
			}
		}
		h.step = len(f.steps)
		h.flush()
		class = f.end(h, a, b)
		h.honest()
		for _, n := range h.order {
			where = "restart at the end"
			h.sides[n].restart()
		}
		where = "after the restarts"
		class += f.end(h, a, b)
		h.honest()
	}); e != "" {
		mcnet.OnWrite = nil
		first := strings.SplitN(e, "\n", 2)[0]
		c.Violate("crash during "+f.key+":"+where+":"+strip(strings.SplitN(first, ": ", 2)[0]), p.String(), "%s: %v, at %s: %s", f.key, p, where, first)
		class = "bad"
	}
	mcnet.OnWrite, vsecretbox.OnSeal = nil, nil
	if p.hit || p.at == 1<<30 {
		c.R.States++
		c.R.Traces++
		c.R.Transitions += len(f.steps)
		c.Eval(fmt.Sprintf("%s %s %s", f.key, p.who, class))
	}
	return p.hit
}

// crashAll lets every client die everywhere.
func crashAll(c *mc.Ctx, f flow07, who []string) {
	if c.Mine(0) {
		dies(c, f, &plan{who: who[0], at: 1 << 30})
	}
	total := 0
	for _, w := range who {
		for at := 1; !c.Expired(); at++ {
			if !c.Mine(at) {
				continue
			}
			p := &plan{who: w, at: at}
			if !dies(c, f, p) {
				break
			}
			total++
			var more []*plan
			if c.Quick() && (strings.HasPrefix(p.op, "write ") || strings.HasPrefix(p.op, "sync ")) {
				p.losses = 0 // the others do without, only this file is unsynced
			}
			for l := 1; l < p.losses; l++ {
				more = append(more, &plan{who: w, at: at, loss: l})
			}
			if p.tears {
				for t := 1; t <= 4; t++ {
					more = append(more, &plan{who: w, at: at, torn: t})
				}
			}
			for i := 0; i < len(more); i++ {
				q := more[i]
				dies(c, f, q)
				if q.loss == 0 && !c.Quick() {
					for l := 1; l < q.losses; l++ {
						more = append(more, &plan{who: w, at: at, torn: q.torn, loss: l})
					}
				}
			}
		}
	}
	if c.Expired() {
		c.Incomplete("crashes during " + f.key)
	}
}

// missing returns the messages nobody has seen, by step and receiver.
func (h *hub) missing() map[string]int {
	m := map[string]int{}
	for t, who := range h.said {
		o := h.sides[strings.Split(who, ">")[1]]
		if o.c.shown(t) == 0 && !strings.Contains(o.past, t) {
			m[t] = h.when[t]
		}
	}
	return m
}

// kept demands that no message is lost but one that was on its way when a
// client died.
func (h *hub) kept() {
	p := h.plan
	lost := 0
	for t, step := range h.missing() {
		who := strings.Split(h.said[t], ">")
		if !p.hit || step != p.step {
			mc.Fail("message from %s to %s lost, said in step %d: %s; %s", who[0], who[1], step, h.sides[who[0]].c.tail(), h.sides[who[1]].c.tail())
		}
		if who[0] != p.who {
			lost++
		}
	}
	if lost > 1 {
		mc.Fail("%d messages to a client that dies lost", lost)
	}
}

func says(h *hub, s, o *side) { s.say(o) }

func flowTalk() []step {
	return []step{
		{"a to b", func(h *hub, a, b *side) { says(h, a, b); h.flush() }},
		{"b to a", func(h *hub, a, b *side) { says(h, b, a); h.flush() }},
		{"a to b", func(h *hub, a, b *side) { says(h, a, b); h.flush() }},
		{"a to b again", func(h *hub, a, b *side) { says(h, a, b); h.flush() }},
		{"a to b once more", func(h *hub, a, b *side) { says(h, a, b); h.flush() }},
		{"a to b twice", func(h *hub, a, b *side) { says(h, a, b); says(h, a, b); h.flush() }},
		{"b to a twice", func(h *hub, a, b *side) { says(h, b, a); says(h, b, a); h.flush() }},
		{"both", func(h *hub, a, b *side) { says(h, a, b); says(h, b, a); h.flush() }},
		{"both again", func(h *hub, a, b *side) { says(h, b, a); says(h, a, b); h.flush() }},
	}
}

func checkG07(c *mc.Ctx) {
	world()
	friends := friendsFS("alice+bob")
	ab := []string{"alice", "bob"}
	direct := func(h *hub, a, b *side) string {
		h.kept()
		if !h.talk(a, b) {
			mc.Fail("no messages any more: %s; %s", a.c.tail(), b.c.tail())
		}
		return "direct"
	}
	recover := func(h *hub, a, b *side) string { return h.recover(a, b) }
	flows := []flow07{
		{"talk", friends, false, ab, flowTalk(), direct},
		{"pin", freshFS, false, ab, flowPin(), recover},
		{"pin with directory", freshFS, true, ab, flowPin(), recover},
		{"find", freshFS, true, ab, flowFind(), recover},
		{"reset", friends, false, ab, flowReset(), recover},
		{"reset with directory", friends, true, ab, flowReset(), recover},
		{"save", friends, false, ab, []step{
			{"talk", func(h *hub, a, b *side) { says(h, a, b); says(h, b, a); h.flush() }},
			{"save", func(h *hub, a, b *side) { a.cmd("/save") }},
			{"talk again", func(h *hub, a, b *side) { says(h, a, b); says(h, b, a); h.flush() }},
			{"save again", func(h *hub, a, b *side) { a.cmd("/save") }},
		}, direct},
		{"delete contact", friends, true, ab, []step{
			{"delete", func(h *hub, a, b *side) { a.cmd("/addressbook del bob") }},
		}, recover},
		groupFlow(),
	}
	for _, f := range flows {
		crashAll(c, f, f.nicks)
	}
}

const gname = "chess"

// admits lets the administrator add a member.
func (h *hub) admits(a, s *side) {
	a.cmd("/gc invite %s %s", gname, nickOf(s.id))
	h.flush()
	token := ""
	for _, l := range strings.Split(s.c.console(), "\n") {
		if i := strings.Index(l, "To accept type "); i >= 0 {
			token = l[i+len("To accept type "):]
		}
	}
	if token != "" {
		s.cmd("%s", token)
		h.flush()
	}
	if s.view() == "none" {
		// an older invite may still be good
		n := strings.Count(s.c.console(), "\n")
		s.cmd("/gc listjoins")
		for _, l := range strings.Split(s.c.console(), "\n")[n:] {
			if w := strings.Fields(l); len(w) > 4 && w[1] == gname+":" {
				s.cmd("/gc join %s %s", gname, w[3])
				h.flush()
			}
		}
	}
}

// view is how a client sees the group.
func (s *side) view() string {
	return members(s.c.group(gname))
}

// mend does what users can do when the views differ and demands that it helps.
func (h *hub) mend(a *side, others ...*side) string {
	class := ""
	for _, n := range h.order {
		h.sides[n].back()
	}
	h.flush()
	want := []string{a.c.nick}
	for _, s := range others {
		want = append(want, s.c.nick)
	}
	good := func(s *side) bool {
		return s.view() == a.view() && has(strings.Split(a.view(), ","), s.c.nick)
	}
	if a.view() == "none" {
		a.cmd("/gc new %s", gname)
		class += " new"
	}
	for i := 0; i < 2; i++ {
		if i == 1 {
			all := true
			for _, s := range others {
				all = all && good(s)
			}
			if all {
				break
			}
			// an invite may have been lost, it has to expire
			class += " wait"
			for _, n := range h.order {
				h.sides[n].c.quit()
			}
			mc.Advance(int64(25 * time.Hour))
			for _, n := range h.order {
				h.sides[n].again()
			}
			h.flush()
		}
		for _, s := range others {
			if good(s) {
				continue
			}
			if has(strings.Split(a.view(), ","), s.c.nick) {
				class += " kick"
				a.cmd("/gc kick %s %s", gname, s.c.nick)
				h.flush()
			}
			if s.view() != "none" {
				class += " force"
				s.cmd("/gc part %s force", gname)
				h.flush()
			}
			class += " admit"
			mc.Advance(int64(time.Second))
			h.admits(a, s)
		}
	}
	sort.Strings(want[1:])
	for _, n := range h.order {
		s := h.sides[n]
		v := strings.Split(s.view(), ",")
		if list(v) != list(want) {
			mc.Fail("%s sees the group as %s instead of %s; %s; %s; %s", n, list(v), list(want), h.sides[h.order[0]].c.tail(), h.sides[h.order[1]].c.tail(), h.sides[h.order[2]].c.tail())
		}
	}
	for _, n := range h.order {
		s := h.sides[n]
		h.n++
		t := fmt.Sprintf("all%d.", h.n)
		s.cmd("/gc m %s %s", gname, t)
		h.flush()
		for _, o := range h.order {
			if o != n && h.sides[o].c.shown(t) != 1 {
				mc.Fail("message of %s to the group shown %d times to %s; %s", n, h.sides[o].c.shown(t), o, h.sides[o].c.tail())
			}
		}
	}
	return class
}

func groupFlow() flow07 {
	carol := func(h *hub) *side { return h.sides["carol"] }
	return flow07{"group", friendsFS("alice+bob", "alice+carol", "bob+carol"), false, []string{"alice", "bob", "carol"}, []step{
		{"new", func(h *hub, a, b *side) { a.cmd("/gc new " + gname) }},
		{"admit b", func(h *hub, a, b *side) { h.admits(a, b) }},
		{"admit c", func(h *hub, a, b *side) { h.admits(a, carol(h)) }},
		{"message", func(h *hub, a, b *side) { a.cmd("/gc m %s hi", gname); b.cmd("/gc m %s ho", gname); h.flush() }},
		{"kick", func(h *hub, a, b *side) { a.cmd("/gc kick %s bob", gname); h.flush() }},
		{"part", func(h *hub, a, b *side) { carol(h).cmd("/gc part %s", gname); h.flush() }},
		{"admit again", func(h *hub, a, b *side) { h.admits(a, b) }},
		{"kill", func(h *hub, a, b *side) { a.cmd("/gc kill %s", gname); h.flush() }},
	}, func(h *hub, a, b *side) string { return h.mend(a, b, carol(h)) }}
}
