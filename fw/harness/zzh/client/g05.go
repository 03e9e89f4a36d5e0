//go:build go1.22

package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "G05", Level: "model_checking", Run: checkG05, Assumptions: []string{noCrypto, noTerm}})
}

// depth is a server that grants few tags.
func depth(n int) []rpc.ServerProperty {
	p := props(false)
	p[0].Value = strconv.Itoa(n)
	p[2].Value = "64" // chunk size
	return p
}

// qmodel follows what the user asked to be sent.
type qmodel struct {
	a       *cli
	l       *link
	tags    int
	want    map[string][]string // by recipient, in order
	got     map[string][]string
	files   map[string][]string // chunks by recipient, in order
	gotF    map[string][]string
	open    []uint32 // outstanding tags, oldest first
	to      []string // recipient of the tag
	online  bool
	big     bool // chunks may be larger than what a connection takes
	n       int
	pushes  int
	owed    []uint32 // pushed messages the client has to acknowledge
	dropped int
}

func newQmodel(tags int, big bool) *qmodel {
	m := &qmodel{tags: tags, big: big, want: map[string][]string{}, got: map[string][]string{}, files: map[string][]string{}, gotF: map[string][]string{}}
	forever()
	m.a = start(aliceID)
	m.login()
	return m
}

func (m *qmodel) login() {
	mc.Quiesce()
	m.loginNow()
	m.look()
}

func (m *qmodel) loginNow() {
	m.l = m.a.links[len(m.a.links)-1]
	p := depth(m.tags)
	if m.big {
		p[2].Value, p[3].Value = "4096", "4096"
	}
	m.l.serveNow(welcome(p))
	if n, _ := strconv.Atoi(p[3].Value); n > 0 {
		m.l.kx.MaxMessageSize = uint(n)
	}
	m.online = true
	m.open, m.to, m.owed = nil, nil, nil
}

// look takes in what the client sent; nothing may be sent twice, out of order
// or with a tag that is in use.
func (m *qmodel) look() {
	mc.Quiesce()
	if !m.online {
		return
	}
	for _, r := range m.l.read() {
		switch r.m.Command {
		case rpc.TaggedCmdPing:
			if m.busy(r.m.Tag) {
				mc.Fail("ping with a tag that is in use")
			}
			m.l.send(rpc.TaggedCmdPong, r.m.Tag, rpc.Pong{})
			mc.Quiesce()
		case rpc.TaggedCmdAcknowledge:
			if len(m.owed) == 0 || r.m.Tag != m.owed[0] {
				mc.Fail("acknowledgement of tag %d, want %v", r.m.Tag, m.owed)
			}
			m.owed = m.owed[1:]
		case rpc.TaggedCmdCache:
			if m.busy(r.m.Tag) || r.m.Tag >= uint32(m.tags) {
				mc.Fail("message sent with tag %d, in use: %v, granted %d", r.m.Tag, m.busy(r.m.Tag), m.tags)
			}
			var c rpc.Cache
			r.into(&c)
			p := m.a.byID(c.To)
			if p == nil {
				mc.Fail("message to unknown recipient")
			}
			nick := p.id.Public.Nick
			m.open = append(m.open, r.m.Tag)
			m.to = append(m.to, nick)
			v := sentMsg{nick, p, p.decode(c.Payload)}
			switch x := v.v.(type) {
			case *rpc.Chunk:
				if len(m.gotF[nick+" new"])*2 <= len(m.gotF[nick]) {
					mc.Fail("to %s: chunk sent before the file was announced", nick)
				}
				m.arrive(nick, m.gotF, m.files, fmt.Sprintf("chunk %d %q", x.Offset, x.Payload))
			case *rpc.ChunkNew:
				m.arrive(nick+" new", m.gotF, m.files, fmt.Sprintf("file %s %d", x.Filename, x.Size))
			default:
				m.arrive(nick, m.got, m.want, describe(v))
			}
		default:
			mc.Fail("unexpected command %v", r.m.Command)
		}
	}
	if m.l.dead() {
		m.online = false
	}
}

func (m *qmodel) arrive(nick string, got, want map[string][]string, s string) {
	n := len(got[nick])
	got[nick] = append(got[nick], s)
	if n >= len(want[nick]) {
		mc.Fail("to %s: sent %q, which is not expected (any more)", nick, clip(s))
	}
	if want[nick][n] != s {
		mc.Fail("to %s: sent %q, expected %q", nick, clip(s), clip(want[nick][n]))
	}
}

func clip(s string) string {
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return s
}

func (m *qmodel) busy(tag uint32) bool {
	for _, t := range m.open {
		if t == tag {
			return true
		}
	}
	return false
}

func (m *qmodel) text() string { m.n++; return fmt.Sprintf("text%d", m.n) }

func (m *qmodel) pm(nick string) {
	t := m.text()
	m.want[nick] = append(m.want[nick], "to "+nick+" pm "+t)
	m.a.cmd("/m %s %s", nick, t)
	m.look()
}

func (m *qmodel) gm() {
	t := m.text()
	for _, n := range []string{"bob", "carol"} {
		m.want[n] = append(m.want[n], "to "+n+" gm own "+t)
	}
	m.a.cmd("/gc m own %s", t)
	m.look()
}

const fileText = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef-and-a-rest"

func (m *qmodel) file(nick string) {
	m.files[nick+" new"] = append(m.files[nick+" new"], fmt.Sprintf("file f.txt %d", len(fileText)))
	for o := 0; o < len(fileText); o += 64 {
		e := o + 64
		if e > len(fileText) {
			e = len(fileText)
		}
		m.files[nick] = append(m.files[nick], fmt.Sprintf("chunk %d %q", o, fileText[o:e]))
	}
	m.a.cmd("/send %s /c/f.txt", nick)
	m.look()
}

// huge is a file whose only chunk fits no connection.
func (m *qmodel) huge() {
	m.dropped++
	m.files["bob new"] = append(m.files["bob new"], "file huge 4000")
	m.a.cmd("/send bob /c/huge")
	m.look()
}

// ack acknowledges the i-th outstanding message.
func (m *qmodel) ack(i int, reply rpc.Acknowledge) {
	if i < 0 {
		i += len(m.open)
	}
	if !m.online || i < 0 || i >= len(m.open) {
		return
	}
	tag := m.open[i]
	m.open = append(append([]uint32(nil), m.open[:i]...), m.open[i+1:]...)
	m.to = append(append([]string(nil), m.to[:i]...), m.to[i+1:]...)
	m.l.send(rpc.TaggedCmdAcknowledge, tag, reply)
	m.look()
}

func (m *qmodel) ackAll() {
	for i := 0; i < 100 && m.online && len(m.open) > 0; i++ {
		m.ack(0, rpc.Acknowledge{})
	}
}

// wait lets seconds pass.
func (m *qmodel) wait(n int) {
	for i := 0; i < n; i++ {
		mc.Advance(int64(time.Second))
		m.look()
	}
}

func (m *qmodel) cut() {
	if m.online {
		m.l.c.Close()
		m.online = false
	}
	mc.Quiesce()
}

// back brings the client back.
func (m *qmodel) back() {
	if m.online {
		return
	}
	n := len(m.a.links)
	for i := 0; i < 31 && len(m.a.links) == n; i++ {
		mc.Advance(int64(time.Second))
		mc.Quiesce()
	}
	if len(m.a.links) == n {
		mc.Fail("client does not reconnect")
	}
	m.login()
}

func (m *qmodel) hear() {
	if !m.online {
		return
	}
	m.pushes++
	t := fmt.Sprintf("heard%d", m.pushes)
	p := m.a.peer(bobID)
	m.owed = append(m.owed, uint32(100+m.pushes))
	m.l.pushNow(uint32(100+m.pushes), bobID, p.seal(rpc.PrivateMessage{Text: t}))
	m.look()
	if m.a.shown(t) != 1 {
		mc.Fail("private message shown %d times", m.a.shown(t))
	}
}

// quit must not lose queued messages.
func (m *qmodel) quit() {
	if m.pending() == 0 {
		return
	}
	m.a.cmd("/quit")
	if m.a.done {
		mc.Fail("client quits with %d messages in its queue", m.pending())
	}
}

func (m *qmodel) pending() (n int) {
	for k := range m.want {
		n += len(m.want[k]) - len(m.got[k])
	}
	for k := range m.files {
		n += len(m.files[k]) - len(m.gotF[k])
	}
	return
}

func (m *qmodel) end() string {
	r := m.pending()
	for i := 0; i < 20 && (m.pending() > 0 || len(m.open) > 0 || !m.online); i++ {
		m.back()
		m.ackAll()
		m.wait(7)
	}
	if m.pending() > 0 {
		mc.Fail("%d messages are never sent; next to bob %q, to carol %q", m.pending(), clip(next(m.want, m.got, "bob")), clip(next(m.want, m.got, "carol"))+"; "+m.a.tail())
	}
	if n := m.a.shown("(dropped)"); n < m.dropped {
		mc.Fail("%d of %d dropped messages reported", n, m.dropped)
	}
	// everything still works
	m.pm("bob")
	m.pm("carol")
	m.hear()
	m.ackAll()
	if len(m.owed) > 0 {
		mc.Fail("pushed messages %v are not acknowledged", m.owed)
	}
	if m.pending() > 0 {
		mc.Fail("messages are not sent at once although all is acknowledged")
	}
	// also after a restart
	peers := m.a.peers
	m.a.cmd("/quit")
	if !m.a.done {
		mc.Fail("client refuses to quit without a queue; %s", m.a.tail())
	}
	m.a.kill()
	m.a = start(aliceID)
	m.a.peers = peers
	m.login()
	m.pm("bob")
	m.hear()
	if m.pending() > 0 {
		mc.Fail("messages are not sent after a restart")
	}
	return fmt.Sprintf("%d pending of %d", r, m.n)
}

func next(want, got map[string][]string, n string) string {
	if len(got[n]) < len(want[n]) {
		return want[n][len(got[n])]
	}
	return ""
}

// push pushes a message without waiting.
func (m *qmodel) push() {
	m.pushes++
	m.owed = append(m.owed, uint32(100+m.pushes))
	p := m.a.peer(bobID)
	m.l.pushNow(uint32(100+m.pushes), bobID, p.seal(rpc.PrivateMessage{Text: fmt.Sprintf("heard%d", m.pushes)}))
}

// type2 types messages without waiting.
func (m *qmodel) type2(to ...string) {
	var l []string
	for _, nick := range to {
		t := m.text()
		m.want[nick] = append(m.want[nick], "to "+nick+" pm "+t)
		l = append(l, "/m "+nick+" "+t)
	}
	m.a.typed(l...)
}

func (m *qmodel) sendLater(nick string) {
	m.files[nick+" new"] = append(m.files[nick+" new"], fmt.Sprintf("file f.txt %d", len(fileText)))
	m.files[nick] = append(m.files[nick], fmt.Sprintf("chunk 0 %q", fileText[:64]), fmt.Sprintf("chunk 64 %q", fileText[64:]))
	m.a.cmdNow("/send %s /c/f.txt", nick)
}

func (m *qmodel) settle() {
	mc.Quiesce()
	mc.Calm(true)
}

// rest waits until nothing moves and completes the history.
func (m *qmodel) rest(x *mc.X) {
	m.settle()
	l := m.l
	m.look()
	if l.cl.IsClosed() {
		m.online = false
	}
	r := m.pending()
	on := m.online
	if on {
		m.ackAll()
	}
	m.owed = nil
	m.end()
	x.Outcome("pending %d online %v", r, on)
}

func queueFS() *vfs.FS {
	fs := baseFS.Clone()
	putGroup(fs, "alice", "own", 5, aliceID, bobID, carolID)
	fs.Put("/c/f.txt", []byte(fileText))
	huge := make([]byte, 4000) // does not compress
	x := uint64(12345)
	for i := range huge {
		x = x*6364136223846793005 + 1442695040888963407
		huge[i] = byte(x >> 56)
	}
	fs.Put("/c/huge", huge)
	return fs
}

func checkG05(c *mc.Ctx) {
	world()
	fs := queueFS()
	evs := []ev[*qmodel]{
		{"/m bob", func(m *qmodel) { m.pm("bob") }},
		{"/m carol", func(m *qmodel) { m.pm("carol") }},
		{"/gc m own", func(m *qmodel) { m.gm() }},
		{"/send bob", func(m *qmodel) { m.file("bob") }},
		{"bob speaks", func(m *qmodel) { m.hear() }},
		{"ack oldest", func(m *qmodel) { m.ack(0, rpc.Acknowledge{}) }},
		{"ack newest", func(m *qmodel) { m.ack(-1, rpc.Acknowledge{}) }},
		{"ack oldest with error", func(m *qmodel) { m.ack(0, rpc.Acknowledge{Error: "disk full"}) }},
		{"ack all", func(m *qmodel) { m.ackAll() }},
		{"connection lost", func(m *qmodel) { m.cut() }},
		{"reconnect", func(m *qmodel) { m.back() }},
		{"time", func(m *qmodel) { m.wait(7) }},
		{"/quit", func(m *qmodel) { m.quit() }},
	}
	for _, tags := range []int{2, 3} {
		tags := tags
		start := func() *qmodel { return newQmodel(tags, false) }
		key := fmt.Sprintf("queue%d", tags)
		for d := 2; d <= c.Pick(4, 5); d++ {
			if d == 4 && tags == 3 && c.Quick() {
				continue
			}
			histories(c, key, fs, evs, d, start, (*qmodel).end)
		}
	}
	// a server whose limit leaves no room for the largest chunk
	big := []ev[*qmodel]{{"huge file to bob", func(m *qmodel) { m.huge() }}}
	for _, e := range evs {
		switch e.name {
		case "/m bob", "/m carol", "bob speaks", "ack oldest", "connection lost", "reconnect":
			big = append(big, e)
		}
	}
	histories(c, "huge", fs, big, 2, func() *qmodel { return newQmodel(2, true) }, (*qmodel).end)
	histories(c, "huge", fs, big, 3, func() *qmodel { return newQmodel(2, true) }, (*qmodel).end)
	c.Note("alphabet", len(evs)+1)
	bound := c.Pick(2, 3)
	sc := func(name string, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setupOn(fs), Body: body, Opt: mc.Options{FreeSwitchCost: true}})
	}
	if c.Quick() && c.Expired() {
		return
	}
	sc("messages and loss of the connection", func(x *mc.X) {
		m := newQmodel(3, false)
		m.pm("bob") // opens the window
		m.ackAll()
		mc.Calm(false)
		mc.GoNamed("server", func() { m.l.c.CloseWrite() })
		m.type2("bob", "carol")
		m.rest(x)
	})
	sc("message, acknowledgement and loss of the connection", func(x *mc.X) {
		m := newQmodel(1, false)
		m.pm("bob")
		mc.Calm(false)
		tag := m.open[0]
		m.open = nil
		mc.GoNamed("server", func() {
			m.l.send(rpc.TaggedCmdAcknowledge, tag, rpc.Acknowledge{})
			m.l.c.CloseWrite()
		})
		m.type2("bob", "bob")
		m.rest(x)
	})
	sc("messages and acknowledgements with few tags", func(x *mc.X) {
		m := newQmodel(2, false)
		m.pm("bob")
		m.pm("carol")
		mc.Calm(false)
		open := m.open
		m.open, m.to = nil, nil
		mc.GoNamed("server", func() {
			m.l.send(rpc.TaggedCmdAcknowledge, open[1], rpc.Acknowledge{})
			m.l.send(rpc.TaggedCmdAcknowledge, open[0], rpc.Acknowledge{})
		})
		m.type2("carol", "bob")
		m.rest(x)
	})
	sc("message and pushed message", func(x *mc.X) {
		m := newQmodel(2, false)
		m.pm("bob")
		m.ackAll()
		mc.Calm(false)
		mc.GoNamed("server", func() {
			m.push()
			m.push()
		})
		m.type2("bob", "carol")
		m.settle()
		if m.a.shown("heard1") != 1 || m.a.shown("heard2") != 1 {
			mc.Fail("pushed messages shown %d and %d times", m.a.shown("heard1"), m.a.shown("heard2"))
		}
		m.rest(x)
	})
	sc("pushed message and loss of the connection", func(x *mc.X) {
		m := newQmodel(2, false)
		m.pm("bob")
		m.ackAll()
		mc.Calm(false)
		mc.GoNamed("server", func() {
			m.push()
			m.l.c.CloseWrite()
		})
		m.type2("bob")
		m.rest(x)
	})
	sc("file and messages", func(x *mc.X) {
		m := newQmodel(10, false)
		m.pm("bob")
		m.ackAll()
		mc.Calm(false)
		m.sendLater("bob")
		m.type2("bob")
		m.rest(x)
	})
	sc("file and loss of the connection", func(x *mc.X) {
		m := newQmodel(10, false)
		m.pm("bob")
		m.ackAll()
		mc.Calm(false)
		mc.GoNamed("server", func() { m.l.c.CloseWrite() })
		m.sendLater("bob")
		m.rest(x)
	})
	sc("message while coming back", func(x *mc.X) {
		m := newQmodel(2, false)
		m.pm("bob")
		m.cut()
		m.a.cmdNow("/m bob early")
		m.want["bob"] = append(m.want["bob"], "to bob pm early")
		n := len(m.a.links)
		for i := 0; i < 31 && len(m.a.links) == n; i++ {
			mc.Advance(int64(time.Second))
			mc.Quiesce()
		}
		mc.Calm(false)
		mc.GoNamed("user", func() { m.type2("bob") })
		m.loginNow()
		m.settle()
		m.rest(x)
	})
}
