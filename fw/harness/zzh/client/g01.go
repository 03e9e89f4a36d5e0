//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/ttk"
	"github.com/companyzero/zkc/zz/vfs"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	mc.Register(&mc.Check{ID: "G01", Level: "model_checking", Run: checkG01, Assumptions: []string{noCrypto, noTerm,
		"the server is a model that stores, forwards and acknowledges (B01-B08 check the real one)"}})
}

// hub is a server for several real clients.
type hub struct {
	dir    bool
	sides  map[string]*side
	order  []string
	mail   map[string][]*letter
	pins   map[string][]byte
	said   map[string]string // messages sent, by text: "from>to"
	n      int
	when   map[string]int // the step of a message
	step   int
	used   map[[32]byte][]byte // by message key
	sealed []sealing
	plan   *plan
}

type letter struct {
	from    [32]byte
	payload []byte
	clear   bool
	at      int64
}

// side is one of the users with what they remember.
type side struct {
	h        *hub
	id       *zkidentity.FullIdentity
	c        *cli
	l        *link
	pin      string // last PIN shown
	pw       string // for the PIN
	lose     int    // 1: the next request is lost with the connection, 2: its reply
	keep     bool   // next acknowledgement is lost with the connection
	tag      uint32
	out      *letter // pushed, unacknowledged
	fetched  bool    // password window has a blob
	dialog   *ttk.Window
	requests map[string]int
	served   int    // connections
	past     string // what earlier processes have shown
}

func newHub(dir bool, nicks ...string) *hub {
	h := &hub{dir: dir, sides: map[string]*side{}, mail: map[string][]*letter{}, pins: map[string][]byte{}, said: map[string]string{}, when: map[string]int{}}
	for _, n := range nicks {
		s := &side{h: h, id: idOf(n), requests: map[string]int{}}
		h.sides[n] = s
		h.order = append(h.order, n)
		s.c, s.l = boot(s.id, dir)
		s.served = 1
	}
	h.pump()
	return h
}

// pump serves requests until nothing moves.
func (h *hub) pump() {
	for {
		mc.Quiesce()
		moved := h.revive()
		for _, n := range h.order {
			s := h.sides[n]
			if s.l == nil {
				continue
			}
			for _, m := range s.l.read() {
				moved = true
				if s.serve(m) {
					break
				}
			}
		}
		if !moved {
			return
		}
	}
}

// serve handles a request and tells whether the connection is gone.
func (s *side) serve(m rmsg) bool {
	h := s.h
	if m.m.Command == rpc.TaggedCmdAcknowledge {
		if s.out == nil || m.m.Tag != s.tag {
			mc.Fail("%s acknowledges what was not pushed", s.c.nick)
		}
		if s.keep {
			s.keep = false
			s.cut()
			return true
		}
		h.mail[s.c.nick] = h.mail[s.c.nick][1:]
		s.out = nil
		return false
	}
	if s.lose == 1 {
		s.lose = 0
		s.cut()
		return true
	}
	s.requests[m.m.Command]++
	var cmd string
	var reply interface{}
	switch m.m.Command {
	case rpc.TaggedCmdCache:
		var c rpc.Cache
		m.into(&c)
		h.fresh(c.Payload)
		h.post(c.To, &letter{s.id.Public.Identity, c.Payload, false, mc.PeekNano() / 1e9})
		cmd, reply = rpc.TaggedCmdAcknowledge, rpc.Acknowledge{}
	case rpc.TaggedCmdProxy:
		var p rpc.Proxy
		m.into(&p)
		h.post(p.To, &letter{s.id.Public.Identity, p.Payload, true, mc.PeekNano() / 1e9})
		cmd, reply = rpc.TaggedCmdProxyReply, rpc.ProxyReply{To: p.To}
	case rpc.TaggedCmdRendezvous:
		var r rpc.Rendezvous
		m.into(&r)
		h.n++
		pin := fmt.Sprintf("%d", 70000+h.n)
		h.pins[pin] = r.Blob
		cmd, reply = rpc.TaggedCmdRendezvousReply, rpc.RendezvousReply{Token: pin}
	case rpc.TaggedCmdRendezvousPull:
		var r rpc.RendezvousPull
		m.into(&r)
		p := rpc.RendezvousPullReply{Token: r.Token, Blob: h.pins[r.Token]}
		if p.Blob == nil {
			p = rpc.RendezvousPullReply{Error: "invalid PIN"}
		}
		cmd, reply = rpc.TaggedCmdRendezvousPullReply, p
	case rpc.TaggedCmdIdentityFind:
		var f rpc.IdentityFind
		m.into(&f)
		p := rpc.IdentityFindReply{Nick: f.Nick, Error: "nick not found: " + f.Nick}
		if h.dir {
			for _, n := range []string{"alice", "bob", "carol"} {
				if n == f.Nick {
					p = rpc.IdentityFindReply{Nick: f.Nick, Identity: idOf(n).Public}
				}
			}
		}
		cmd, reply = rpc.TaggedCmdIdentityFindReply, p
	case rpc.TaggedCmdPing:
		cmd, reply = rpc.TaggedCmdPong, rpc.Pong{}
	default:
		mc.Fail("%s sends %q", s.c.nick, m.m.Command)
	}
	if s.lose == 2 {
		s.lose = 0
		s.cut()
		return true
	}
	switch p := reply.(type) {
	case rpc.RendezvousPullReply:
		s.fetched = s.fetched || p.Error == ""
	}
	s.l.send(cmd, m.m.Tag, reply)
	return false
}

func (h *hub) post(to [32]byte, l *letter) {
	n := nicks([][32]byte{to})[0]
	h.mail[n] = append(h.mail[n], l)
}

// deliver pushes the oldest letter.
func (s *side) deliver() bool {
	h := s.h
	q := h.mail[s.c.nick]
	if len(q) == 0 {
		return false
	}
	s.back()
	s.tag = (s.tag + 1) % 10
	s.out = q[0]
	s.l.sendMsg(rpc.Message{Command: rpc.TaggedCmdPush, Tag: s.tag, Cleartext: s.out.clear},
		rpc.Push{From: s.out.from, Received: s.out.at, Payload: s.out.payload})
	h.pump()
	if s.l != nil && s.out != nil {
		mc.Fail("%s does not acknowledge a push; connection closed: %v; %s", s.c.nick, s.l.dead(), s.c.tail())
	}
	return true
}

// flush delivers everything.
func (h *hub) flush() {
	for i := 0; ; i++ {
		any := false
		for _, n := range h.order {
			if h.sides[n].deliver() {
				any = true
			}
		}
		if !any {
			return
		}
		if i > 40 {
			mc.Fail("clients never stop sending messages to each other")
		}
	}
}

// cut drops the connection.
func (s *side) cut() {
	if s.l != nil {
		s.l.c.Close()
		s.l, s.out = nil, nil
	}
	mc.Quiesce()
}

// back lets the client reconnect.
func (s *side) back() {
	if s.l != nil {
		return
	}
	for i := 0; i < 65; i++ {
		if n := len(s.c.links); n > s.served && !s.c.links[n-1].dead() {
			s.served = n
			s.l = s.c.online(s.h.dir)
			s.h.pump()
			return
		}
		mc.Advance(int64(time.Second))
		mc.Quiesce()
	}
	mc.Fail("client %s does not reconnect", s.c.nick)
}

// restart ends the client's process and starts it again.
func (s *side) restart() {
	s.c.quit()
	mc.Advance(int64(time.Second))
	s.again()
	s.h.pump()
}

// again starts a client whose process has ended.
func (s *side) again() {
	for _, w := range s.c.screen() {
		s.past += strings.Join(w, "\n") + "\n"
	}
	s.out, s.fetched, s.dialog, s.lose, s.keep = nil, false, nil, 0, false
	s.c, s.l = boot(s.id, s.h.dir)
	s.served = 1
}

func (s *side) cmd(f string, a ...interface{}) {
	s.back()
	if strings.HasPrefix(f, "/reset") {
		mc.Advance(int64(time.Second))
	}
	s.c.cmdNow(f, a...)
	s.h.pump()
}

// post puts a blob on the server.
func (s *side) post(pw string) {
	s.cmd("/kx")
	w := s.c.window("kxWindow")
	n := s.c.shown("key exchange PIN: ")
	s.c.do(func() {
		w.Fill(0, pw)
		w.Enter(0)
	})
	s.h.pump()
	if s.c.shown("key exchange PIN: ") > n {
		for _, l := range strings.Split(s.c.console(), "\n") {
			if i := strings.Index(l, "key exchange PIN: "); i >= 0 {
				s.pin, s.pw = l[i+len("key exchange PIN: "):], pw
			}
		}
	}
}

// password answers the question for the password; it tells whether the
// dialog for the fingerprint opens.
func (s *side) password(pw string) bool {
	if !s.fetched {
		return false
	}
	w := s.c.window("kxAcceptWindow")
	n := len(ttk.All)
	s.c.do(func() {
		w.Fill(0, pw)
		w.Enter(0)
	})
	s.h.pump()
	if len(ttk.All) == n {
		return false
	}
	s.dialog = ttk.All[n]
	return true
}

func (s *side) answer(text string) {
	if s.dialog == nil {
		return
	}
	s.back()
	w := s.dialog
	s.dialog, s.fetched = nil, false
	s.c.do(func() {
		w.Fill(0, text)
		w.Enter(0)
	})
	s.h.pump()
}

// accept fetches what another user has posted and accepts it.
func (s *side) accept(o *side) {
	if o.pin == "" {
		return
	}
	if !s.fetched {
		s.cmd("/fetch %s", o.pin)
	}
	if s.dialog == nil {
		s.password(o.pw)
	}
	s.answer("yes")
}

// pinKX is a whole key exchange with a PIN.
func (h *hub) pinKX(a, b *side) {
	b.fetched, b.dialog = false, nil
	a.post("recover")
	b.accept(a)
	h.flush()
}

func nickOf(id *zkidentity.FullIdentity) string { return id.Public.Nick }

// say sends a private message.
func (s *side) say(o *side) string {
	s.h.n++
	t := fmt.Sprintf("text%d.", s.h.n)
	s.h.when[t] = s.h.step
	s.h.said[t] = s.c.nick + ">" + o.c.nick
	s.cmd("/m %s %s", nickOf(o.id), t)
	return t
}

// heard tells whether a user sees a message of another one.
func (s *side) heard(o *side, t string) bool {
	for _, w := range s.c.screen() {
		for _, l := range w {
			if strings.Contains(l, t) && strings.Contains(l, nickOf(o.id)+" "+t) || strings.HasSuffix(l, "<"+nickOf(o.id)+"> "+t) {
				return true
			}
		}
	}
	return false
}

// talk tells whether two users can talk to each other.
func (h *hub) talk(a, b *side) bool {
	x, y := a.say(b), b.say(a)
	h.flush()
	ok := b.c.shown(x) > 0 && a.c.shown(y) > 0
	h.honest()
	return ok && b.heard(a, x) && a.heard(b, y)
}

// honest looks for messages that are shown to others than the addressee, as
// coming from others than the author, or more than once.
func (h *hub) honest() {
	for _, n := range h.order {
		s := h.sides[n]
		for t, who := range h.said {
			p := strings.Split(who, ">")
			if p[0] == n {
				continue
			}
			k := 0
			for _, w := range append(s.c.screen(), strings.Split(s.past, "\n")) {
				for _, l := range w {
					if !strings.Contains(l, t) {
						continue
					}
					k++
					if p[1] != n {
						mc.Fail("message for %s shown to %s", p[1], n)
					}
					if !strings.Contains(l, p[0]) {
						mc.Fail("message of %s shown as %q", p[0], l)
					}
				}
			}
			if k > 1 {
				mc.Fail("message shown %d times", k)
			}
		}
	}
}

// recover does what users can do when they cannot talk to each other.
func (h *hub) recover(a, b *side) string {
	for _, n := range h.order {
		s := h.sides[n]
		s.lose, s.keep = 0, false
		s.back()
	}
	h.flush()
	if h.talk(a, b) {
		return "works"
	}
	for i, how := range []string{"reset", "reset after restart"} {
		if i == 1 {
			a.restart()
			b.restart()
		}
		for _, p := range [][2]*side{{a, b}, {b, a}} {
			p[0].cmd("/reset %s", nickOf(p[1].id))
			h.flush()
			if h.talk(a, b) {
				return how
			}
		}
	}
	h.pinKX(a, b)
	if !h.talk(a, b) {
		mc.Fail("no way to a working key exchange; %s: %s; %s: %s", a.c.nick, a.c.tail(), b.c.nick, b.c.tail())
	}
	return "new exchange"
}

// step is one step of a key exchange.
type step struct {
	name string
	do   func(h *hub, a, b *side)
}

var (
	stepDeliverA = step{"deliver to a", func(h *hub, a, b *side) { a.deliver() }}
	stepDeliverB = step{"deliver to b", func(h *hub, a, b *side) { b.deliver() }}
)

func flowPin() []step {
	return []step{
		{"post", func(h *hub, a, b *side) {
			a.post("secret")
			if a.pin == "" && a.lose == 0 {
				a.post("secret")
			}
		}},
		{"fetch", func(h *hub, a, b *side) {
			if a.pin == "" {
				a.post("secret")
			}
			b.cmd("/fetch %s", a.pin)
		}},
		{"password", func(h *hub, a, b *side) {
			if !b.fetched {
				b.cmd("/fetch %s", a.pin)
			}
			b.password("secret")
		}},
		{"yes", func(h *hub, a, b *side) { b.accept(a) }},
		stepDeliverA, stepDeliverB,
	}
}

func flowFind() []step {
	return []step{
		{"find", func(h *hub, a, b *side) { a.cmd("/find %s", nickOf(b.id)) }},
		stepDeliverB, stepDeliverA,
	}
}

func flowReset() []step {
	return []step{
		{"reset", func(h *hub, a, b *side) { a.cmd("/reset %s", nickOf(b.id)) }},
		stepDeliverB, stepDeliverA, stepDeliverB,
	}
}

// bump is something that happens during a key exchange; fair noise must not
// keep it from succeeding.
type bump struct {
	name string
	fair bool
	do   func(h *hub, a, b *side)
}

func noises() (out []bump) {
	add := func(name string, fair bool, f func(h *hub, a, b *side)) { out = append(out, bump{name, fair, f}) }
	each := func(name string, fair bool, f func(h *hub, s, o *side)) {
		add(name+" a", fair, func(h *hub, a, b *side) { f(h, a, b) })
		add(name+" b", fair, func(h *hub, a, b *side) { f(h, b, a) })
	}
	each("restart", true, func(h *hub, s, o *side) { s.restart() })
	each("cut", true, func(h *hub, s, o *side) { s.cut() })
	each("lost ack", true, func(h *hub, s, o *side) { s.keep = true })
	each("lost request", false, func(h *hub, s, o *side) { s.lose = 1 })
	each("lost reply", false, func(h *hub, s, o *side) { s.lose = 2 })
	each("wrong password", true, func(h *hub, s, o *side) {
		if s.fetched && s.password("wrong") {
			mc.Fail("wrong password accepted")
		}
	})
	each("wrong PIN", true, func(h *hub, s, o *side) {
		f := s.fetched
		s.cmd("/fetch 12345")
		s.fetched = f
	})
	each("refuse", true, func(h *hub, s, o *side) {
		if s.dialog != nil {
			before := s.state()
			n := s.requests[rpc.TaggedCmdCache]
			s.answer("no")
			s.unchanged("refused identity", before)
			if s.requests[rpc.TaggedCmdCache] != n {
				mc.Fail("refused identity gets a message")
			}
		}
	})
	each("third party", true, func(h *hub, s, o *side) {
		c := h.sides["carol"]
		f, d := s.fetched, s.dialog
		pin, pw := s.pin, s.pw
		s.post("third")
		c.accept(s)
		if s.pin != pin && pin != "" {
			s.pin, s.pw = pin, pw
		} else {
			s.pin = ""
		}
		s.fetched, s.dialog = f, d
	})
	each("message to third party", true, func(h *hub, s, o *side) { s.say(h.sides["carol"]) })
	return
}

// state is what a client has on its disk about other users.
func (s *side) state() string {
	var b strings.Builder
	for _, f := range vfs.Cur.Files(root(s.c.nick)) {
		if strings.Contains(f, "/inbound/") || strings.Contains(f, "blobkeys") {
			d, _ := vfs.Cur.Read(f)
			if strings.Contains(f, "blobkeys") && !strings.Contains(string(d), "=") {
				continue // no keys
			}
			fmt.Fprintf(&b, "%s %x\n", f, d)
		}
	}
	return b.String()
}

func (s *side) unchanged(what, before string) {
	if s.state() != before {
		mc.Fail("%s: files of %s have changed", what, s.c.nick)
	}
}

// forgot demands that no secret of a finished key exchange is left on the
// disk.
func (s *side) forgot(o *side) {
	for _, f := range vfs.Cur.Files(inbound(s.c.nick, o.id)) {
		d, ok := vfs.Cur.Read(f)
		var rs disk.RatchetState
		if !ok {
			continue
		}
		if n, err := xdr.UnmarshalLimited(bytes.NewReader(d), &rs, 1<<20); err != nil || n != len(d) {
			continue
		}
		if len(rs.MyHalf) > 0 || len(rs.TheirHalf) > 0 {
			mc.Fail("%s keeps the secrets of a finished key exchange", s.c.nick)
		}
	}
}

// complete tells whether a client has announced a key exchange with another
// user.
func (s *side) complete(o *side) bool {
	return s.c.shown(hex.EncodeToString(o.id.Public.Identity[:])) > 0 && s.c.shown("Key Exchange complete") > 0
}

func friendsFS(pairs ...string) *vfs.FS {
	fs := freshFS.Clone()
	for _, p := range pairs {
		n := strings.Split(p, "+")
		x, y := idOf(n[0]), idOf(n[1])
		contact(fs, x, y)
		dir := inbound(n[1], x)
		fs.PutDir(dir)
		pid, err := x.Public.Marshal()
		if err != nil {
			panic(err)
		}
		fs.Put(dir+"/publicidentity.xdr", pid)
		fs.Put(dir+"/ratchet.xdr", basePeers[n[0]+hexID(y)])
	}
	return fs
}

// flow runs a key exchange with noise before the given steps.
func flow(c *mc.Ctx, key string, fs *vfs.FS, dir bool, steps []step, swap bool, ns []bump, at []int) {
	setupOn(fs)()
	where := "start"
	class := ""
	var names []string
	fair := true
	for i, n := range ns {
		names = append(names, fmt.Sprintf("%s before %d", n.name, at[i]))
		fair = fair && n.fair
	}
	if f := mc.RunOnce(func() {
		h := newHub(dir, "alice", "bob", "carol")
		a, b := h.sides["alice"], h.sides["bob"]
		if swap {
			a, b = b, a
		}
		for i := 0; i <= len(steps); i++ {
			for j, n := range ns {
				if at[j] == i {
					where = n.name
					n.do(h, a, b)
				}
			}
			if i < len(steps) {
				where = steps[i].name
				steps[i].do(h, a, b)
			}
		}
		where = "end"
		for _, n := range h.order {
			h.sides[n].back()
		}
		h.flush()
		h.honest()
		if fair {
			for _, p := range [][2]*side{{a, b}, {b, a}} {
				if !p[0].complete(p[1]) && !strings.Contains(strings.Join(names, " "), "restart") {
					mc.Fail("%s does not announce the key exchange: %s; %s", p[0].c.nick, p[0].c.tail(), p[1].c.tail())
				}
			}
			if !h.talk(a, b) {
				mc.Fail("no messages after the key exchange: %s; %s", a.c.tail(), b.c.tail())
			}
			class = "direct"
			a.forgot(b)
			b.forgot(a)
		} else {
			class = h.recover(a, b)
		}
		for _, s := range []*side{a, b} {
			where = "restart at the end"
			s.restart()
			if !h.talk(a, b) {
				mc.Fail("no messages after a restart: %s; %s", a.c.tail(), b.c.tail())
			}
		}
	}); f != "" {
		first := strings.SplitN(f, "\n", 2)[0]
		what := map[string]bool{}
		for _, n := range ns {
			what[n.name] = true
		}
		var kinds []string
		for n := range what {
			kinds = append(kinds, n)
		}
		sort.Strings(kinds)
		if i := strings.Index(first, ":"); i >= 0 {
			first = first[:i] + " " + first[i:]
		}
		c.Violate(key+":["+strings.Join(kinds, ";")+"]:"+where+":"+strip(strings.SplitN(first, ":", 2)[0]), strings.Join(names, ", "), "%s with [%s] at %s: %s", key, strings.Join(names, "; "), where, first)
		class = "bad"
	}
	c.R.States++
	c.R.Traces++
	c.R.Transitions += len(steps) + len(ns)
	c.Eval(key + " " + class)
}

func checkG01(c *mc.Ctx) {
	world()
	i := 0
	type fl struct {
		key   string
		fs    *vfs.FS
		dir   bool
		steps []step
	}
	flows := []fl{
		{"pin", freshFS, false, flowPin()},
		{"pin with directory", freshFS, true, flowPin()},
		{"find", freshFS, true, flowFind()},
		{"reset", friendsFS("alice+bob"), false, flowReset()},
		{"reset with directory", friendsFS("alice+bob"), true, flowReset()},
	}
	run := func(f fl, swap bool, ns []bump, at []int) {
		i++
		if !c.Mine(i) || c.Expired() {
			return
		}
		flow(c, f.key, f.fs, f.dir, f.steps, swap, ns, at)
	}
	if os.Getenv("ZZF") != "" {
		forged(c)
		sameNick(c)
		return
	}
	ns := noises()
	for _, f := range flows {
		for _, swap := range []bool{false, true} {
			run(f, swap, nil, nil)
			for _, n := range ns {
				for p := 0; p <= len(f.steps); p++ {
					run(f, swap, []bump{n}, []int{p})
				}
			}
		}
	}
	if c.Expired() {
		c.Incomplete("key exchanges with one disturbance")
	}
	forged(c)
	sameNick(c)
	free(c, "history of strangers", freshFS, c.Pick(3, 4))
	free(c, "history of friends", friendsFS("alice+bob"), c.Pick(3, 4))
	// two disturbances
	total, done := 0, 0
	swaps := []bool{false}
	if !c.Quick() {
		swaps = []bool{false, true}
	}
	for _, f := range flows {
		for _, swap := range swaps {
			for x, n := range ns {
				for y, m := range ns {
					for p := 0; p <= len(f.steps); p++ {
						for q := p; q <= len(f.steps); q++ {
							if p == q && y < x {
								continue
							}
							total++
							if !c.Expired() {
								done++
								run(f, swap, []bump{n, m}, []int{p, q})
							}
						}
					}
				}
			}
		}
	}
	c.Note("key exchanges with two disturbances", fmt.Sprintf("%d of %d", done, total))
	if c.Expired() {
		c.Incomplete("key exchanges with two disturbances")
	}
}

// free runs histories of what two users can do to each other.
func free(c *mc.Ctx, key string, fs *vfs.FS, depth int) {
	var evs []ev[*hub]
	add := func(name string, f func(h *hub, s, o *side)) {
		for _, n := range [][2]string{{"alice", "bob"}, {"bob", "alice"}} {
			n := n
			evs = append(evs, ev[*hub]{name + " " + n[0], func(h *hub) { f(h, h.sides[n[0]], h.sides[n[1]]) }})
		}
	}
	add("post", func(h *hub, s, o *side) { s.post("secret") })
	add("accept", func(h *hub, s, o *side) { s.accept(o) })
	add("find", func(h *hub, s, o *side) { s.cmd("/find %s", nickOf(o.id)) })
	add("deliver to", func(h *hub, s, o *side) { s.deliver() })
	add("restart", func(h *hub, s, o *side) { s.restart() })
	add("reset", func(h *hub, s, o *side) { s.cmd("/reset %s", nickOf(o.id)) })
	add("message from", func(h *hub, s, o *side) { s.say(o) })
	add("lost request of", func(h *hub, s, o *side) { s.lose = 1 })
	add("lost ack of", func(h *hub, s, o *side) { s.keep = true })
	add("delete by", func(h *hub, s, o *side) { s.cmd("/addressbook del %s", nickOf(o.id)) })
	histories(c, key, fs, evs, depth, func() *hub { return newHub(true, "alice", "bob") }, func(h *hub) string {
		return h.recover(h.sides["alice"], h.sides["bob"])
	})
}
