//go:build go1.22

package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "G08", Level: "model_checking", Run: checkG08, Assumptions: []string{noCrypto, noTerm}})
}

// nmodel follows a client's connection.
type nmodel struct {
	a        *cli
	l        *link // nil: not online
	seen     int   // connections taken care of
	mode     string
	cert     string // of the server
	accepted string // by the user
	refused  string // certificate that was refused last
	off      bool   // may not connect by itself
	must     bool   // has to connect by itself
	n        int
	reason   int
}

func newNmodel(mode string) *nmodel {
	forever()
	m := &nmodel{mode: mode, cert: string(srvCert), accepted: string(srvCert)}
	m.boot()
	return m
}

func (m *nmodel) boot() {
	m.l, m.seen, m.off, m.must, m.refused = nil, 0, false, false, ""
	var peers map[string]*peer
	if m.a != nil {
		peers = m.a.peers
	}
	// start looks at how the server answers the first call
	m.a = startAs(aliceID, func(c *cli) { c.refuse, c.cert = m.mode == "refuses", []byte(m.cert) })
	if peers != nil {
		m.a.peers = peers
	}
	if m.a.dials != 1 {
		mc.Fail("client calls the server %d times when it starts", m.a.dials)
	}
	m.settle()
}

func (m *nmodel) set(mode string) {
	m.mode = mode
	m.a.refuse = mode == "refuses"
}

func (m *nmodel) newCert(s string) {
	m.cert = s
	m.a.cert = []byte(s)
}

// settle is the server's part.
func (m *nmodel) settle() {
	for {
		mc.Quiesce()
		if m.l != nil && m.l.dead() {
			m.l.c.Close()
			m.l = nil
			mc.Quiesce()
		}
		if m.seen == len(m.a.links) {
			return
		}
		l := m.a.links[m.seen]
		m.seen++
		if m.l != nil {
			mc.Fail("client opens a second connection")
		}
		if m.cert != m.accepted {
			if l.c.Pending() > 0 {
				mc.Fail("client talks to a server with another certificate")
			}
			if !l.dead() {
				mc.Fail("connection to a server with another certificate remains open")
			}
			m.refused = m.cert
			m.must = false
			continue
		}
		m.answer(l)
	}
}

func (m *nmodel) answer(l *link) {
	p := props(false)
	w := welcome(p)
	switch m.mode {
	case "welcomes":
		l.serve(w)
		if l.dead() {
			mc.Fail("client ends a good connection; %s", m.a.tail())
		}
		m.l = l
		m.must = false
		if m.a.shown("motd") == 0 {
			mc.Fail("message of the day not shown")
		}
		return
	case "sends an unwelcome":
		m.reason++
		r := fmt.Sprintf("reason-%d", m.reason)
		l.serve(xenc(rpc.Message{Command: rpc.SessionCmdUnwelcome}, rpc.Unwelcome{Version: rpc.ProtocolVersion, Reason: r}))
		if m.a.shown(r) == 0 {
			mc.Fail("reason not shown")
		}
		m.off, m.must = true, false
	case "has another version":
		l.serve(xenc(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{Version: rpc.ProtocolVersion + 1, Properties: p}))
	case "hangs up":
		l.c.Close()
		mc.Quiesce()
	case "says nothing":
		mc.Advance(int64(31 * time.Second))
		mc.Quiesce()
	case "has another key":
		l.kx = &fakesession.KX{Conn: l.c, MaxMessageSize: 1048576, OurPublicKey: &bobID.Public.Key}
		var c [12]byte
		l.c.Read(c[:])
		l.kx.Respond()
		mc.Quiesce()
		l.kx.Write(w)
		mc.Quiesce()
	default:
		panic(m.mode)
	}
	if !l.dead() {
		mc.Fail("client keeps a connection to a server that %s", m.mode)
	}
	l.c.Close()
	mc.Quiesce()
}

// time passes.
func (m *nmodel) time(n int) {
	d := m.a.dials
	for i := 0; i < n; i++ {
		mc.Advance(int64(time.Second))
		if m.l != nil {
			mc.Quiesce()
			for _, r := range m.l.read() {
				if r.m.Command != rpc.TaggedCmdPing {
					mc.Fail("client sends %v", r.m.Command)
				}
				m.l.send(rpc.TaggedCmdPong, r.m.Tag, rpc.Pong{})
			}
		}
		off := m.off
		before := m.a.dials
		m.settle()
		if off && m.a.dials != before {
			mc.Fail("client connects although it was told not to")
		}
	}
	if m.l == nil && m.must && m.a.dials == d && n > 30 {
		mc.Fail("client does not try to reconnect within %d seconds", n)
	}
}

func (m *nmodel) cut() {
	if m.l == nil {
		return
	}
	m.l.c.Close()
	m.l = nil
	m.must = true
	m.settle()
}

func (m *nmodel) online() {
	was := m.l != nil
	d := m.a.dials
	m.off = false
	m.a.cmdNow("/online")
	m.settle()
	if was && m.a.dials != d {
		mc.Fail("/online connects although the client is online")
	}
	if !was && m.a.dials == d {
		mc.Fail("/online does not connect")
	}
	if m.l == nil {
		m.must = false
	}
}

func (m *nmodel) offline() {
	m.a.cmd("/offline")
	if m.l != nil && !m.l.dead() {
		mc.Fail("/offline leaves the connection open")
	}
	if m.l != nil {
		m.l.c.Close()
		m.l = nil
	}
	m.off, m.must = true, false
	m.settle()
}

func (m *nmodel) acceptCert() {
	n := m.a.shown("Server certificate saved")
	m.a.cmd("/acceptnewcert")
	ok := m.l == nil && m.refused != ""
	if (m.a.shown("Server certificate saved") > n) != ok {
		mc.Fail("/acceptnewcert works: %v, want %v", !ok, ok)
	}
	if ok {
		m.accepted = m.refused
		m.refused = ""
	}
	m.settle()
}

func (m *nmodel) restart() {
	m.a.quit()
	if m.l != nil {
		m.l.c.Close()
	}
	m.boot()
}

func (m *nmodel) state() string {
	return fmt.Sprintf("online %v off %v must %v", m.l != nil, m.off, m.must)
}

// end demands that the user can go online and talk.
func (m *nmodel) end() string {
	s := m.state()
	// whoever has to reconnect does; who must not doesn't
	m.time(61)
	m.set("welcomes")
	if m.must {
		m.time(31)
		if m.l == nil && m.must {
			mc.Fail("client does not reconnect")
		}
	}
	if m.l == nil && m.cert != m.accepted {
		m.online()
		if m.l != nil {
			mc.Fail("client is online")
		}
		m.acceptCert()
		if m.accepted != m.cert {
			mc.Fail("new certificate cannot be accepted")
		}
	}
	if m.l == nil {
		m.online()
		if m.l == nil {
			mc.Fail("/online fails; %s", m.a.tail())
		}
	}
	m.talk()
	// also after a restart
	m.restart()
	if m.l == nil {
		if m.cert == m.accepted {
			mc.Fail("client does not connect when it starts; %s", m.a.tail())
		}
		m.acceptCert()
		m.online()
	}
	m.talk()
	return s
}

func (m *nmodel) talk() {
	m.n++
	m.a.alive(m.l, m.a.peer(bobID), fmt.Sprintf("hello-%d", m.n))
	m.a.cmd("/m bob answer-%d", m.n)
	s := m.l.sent(m.l.poll())
	if len(s) != 1 || describe(s[0]) != fmt.Sprintf("to bob pm answer-%d", m.n) {
		mc.Fail("message not sent; %s", m.a.tail())
	}
}

func checkG08(c *mc.Ctx) {
	world()
	evs := []ev[*nmodel]{
		{"connection lost", func(m *nmodel) { m.cut() }},
		{"/online", func(m *nmodel) { m.online() }},
		{"/offline", func(m *nmodel) { m.offline() }},
		{"/acceptnewcert", func(m *nmodel) { m.acceptCert() }},
		{"5 seconds", func(m *nmodel) { m.time(5) }},
		{"31 seconds", func(m *nmodel) { m.time(31) }},
		{"restart", func(m *nmodel) { m.restart() }},
		{"server gets a new certificate", func(m *nmodel) { m.newCert("another certificate") }},
		{"server gets its old certificate", func(m *nmodel) { m.newCert(string(srvCert)) }},
		{"server welcomes", func(m *nmodel) { m.set("welcomes") }},
		{"server refuses", func(m *nmodel) { m.set("refuses") }},
		{"server unwelcomes", func(m *nmodel) { m.set("sends an unwelcome") }},
		{"server has another version", func(m *nmodel) { m.set("has another version") }},
		{"server hangs up", func(m *nmodel) { m.set("hangs up") }},
		{"server says nothing", func(m *nmodel) { m.set("says nothing") }},
		{"server has another key", func(m *nmodel) { m.set("has another key") }},
	}
	for d := 1; d <= c.Pick(3, 5); d++ {
		histories(c, "connection", baseFS, evs, d, func() *nmodel { return newNmodel("welcomes") }, (*nmodel).end)
	}
	for _, mode := range []string{"refuses", "sends an unwelcome", "hangs up"} {
		mode := mode
		histories(c, "first connection "+mode, baseFS, evs, 2, func() *nmodel { return newNmodel(mode) }, (*nmodel).end)
	}
	c.Note("alphabet", len(evs))
	grid(c)
	bound := c.Pick(2, 3)
	free := func(name string, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound - 1, Shard: true, Setup: setupOn(baseFS), Body: body})
	}
	sc := func(name string, body func(x *mc.X)) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setupOn(baseFS), Body: body, Opt: mc.Options{FreeSwitchCost: true}})
	}
	rest := func(x *mc.X, m *nmodel) {
		mc.Quiesce()
		mc.Calm(true)
		m.settle()
		x.Outcome("%s", m.end())
	}
	free("welcome and hanging up", func(x *mc.X) {
		forever()
		m := &nmodel{mode: "welcomes", cert: string(srvCert), accepted: string(srvCert)}
		m.a = start(aliceID)
		mc.Calm(false)
		l := m.a.links[0]
		m.seen = 1
		l.serveNow(welcome(props(false)))
		l.c.Close()
		m.must = true
		rest(x, m)
	})
	free("welcome, push and loss of the connection", func(x *mc.X) {
		forever()
		m := &nmodel{mode: "welcomes", cert: string(srvCert), accepted: string(srvCert)}
		m.a = start(aliceID)
		mc.Calm(false)
		l := m.a.links[0]
		m.seen = 1
		l.serveNow(welcome(props(false)))
		l.pushNow(1, bobID, m.a.peer(bobID).seal(rpc.PrivateMessage{Text: "early"}))
		l.c.CloseWrite()
		m.must = true
		mc.Quiesce()
		if m.a.shown("early") != 1 {
			mc.Fail("pushed message shown %d times", m.a.shown("early"))
		}
		rest(x, m)
	})
	sc("/online twice", func(x *mc.X) {
		m := newNmodel("refuses")
		m.set("welcomes")
		mc.Calm(false)
		m.a.cmdNow("/online")
		m.a.cmdNow("/online")
		rest(x, m)
		if n := len(m.a.links); n > 3 {
			mc.Fail("%d connections", n)
		}
	})
	sc("/offline and loss of the connection", func(x *mc.X) {
		m := newNmodel("welcomes")
		mc.Calm(false)
		m.a.cmdNow("/offline")
		m.l.c.Close()
		m.l = nil
		m.off = true
		rest(x, m)
	})
	sc("/offline while reconnecting", func(x *mc.X) {
		m := newNmodel("welcomes")
		m.cut()
		m.time(29)
		mc.Calm(false)
		mc.GoNamed("time", func() { mc.Advance(int64(time.Second)) })
		m.a.cmdNow("/offline")
		mc.Quiesce()
		mc.Calm(true)
		if len(m.a.links) > m.seen {
			// was faster, but is not online for long
			m.seen++
			m.a.links[1].serve(welcome(props(false)))
			if !m.a.links[1].dead() {
				mc.Fail("client is online after /offline")
			}
		}
		m.off, m.must = true, false
		rest(x, m)
	})
	sc("/online while reconnecting", func(x *mc.X) {
		m := newNmodel("welcomes")
		m.cut()
		m.time(29)
		m.must = false
		mc.Calm(false)
		mc.GoNamed("time", func() { mc.Advance(int64(time.Second)) })
		m.a.cmdNow("/online")
		rest(x, m)
	})
	sc("loss of the connection and /quit", func(x *mc.X) {
		m := newNmodel("welcomes")
		mc.Calm(false)
		mc.GoNamed("server", func() { m.l.c.Close() })
		m.a.cmdNow("/quit")
		mc.Quiesce()
		mc.Calm(true)
		if !m.a.done {
			mc.Fail("client does not quit")
		}
		m.a.kill()
		m.l = nil
		m.boot()
		x.Outcome("%s", m.end())
	})
}

// grid sends welcomes with every property missing, invalid and extreme.
func grid(c *mc.Ctx) {
	values := []string{"missing", "", "0", "-1", "1", "2", "10", "31", "32", "33", "64", "100", "65536", "1048576", "abc", "1.5", " 1", "true", "false",
		"2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "a\nb"}
	type set struct{ k, v string }
	var cases [][]set
	keys := []string{rpc.PropTagDepth, rpc.PropServerTime, rpc.PropMaxAttachmentSize, rpc.PropMaxChunkSize, rpc.PropMaxMsgSize, rpc.PropMOTD, rpc.PropDirectory}
	for _, k := range keys {
		for _, v := range values {
			cases = append(cases, []set{{k, v}})
		}
	}
	for _, v := range values {
		for _, w := range values {
			cases = append(cases, []set{{rpc.PropMaxChunkSize, v}, {rpc.PropMaxMsgSize, w}})
		}
		cases = append(cases, []set{{rpc.PropTagDepth, v}, {rpc.PropMaxAttachmentSize, "18446744073709551615"}})
	}
	for i, cs := range cases {
		if !c.Mine(i) {
			continue
		}
		vals := map[string]string{}
		for _, p := range props(false) {
			vals[p.Key] = p.Value
		}
		for _, s := range cs {
			vals[s.k] = s.v
		}
		var ps []rpc.ServerProperty
		for _, p := range props(false) {
			if vals[p.Key] != "missing" {
				ps = append(ps, rpc.ServerProperty{Key: p.Key, Value: vals[p.Key], Required: p.Required})
			}
		}
		u := func(k string) uint64 { n, _ := strconv.ParseUint(vals[k], 10, 64); return n }
		depth, err := strconv.ParseInt(vals[rpc.PropTagDepth], 10, 64)
		good := err == nil && depth >= 0 && depth <= 32
		st, err := strconv.ParseInt(vals[rpc.PropServerTime], 10, 64)
		good = good && err == nil && st >= 0
		good = good && u(rpc.PropMaxAttachmentSize) > 0 && u(rpc.PropMaxChunkSize) > 0 && u(rpc.PropMaxMsgSize) >= u(rpc.PropMaxChunkSize)
		if v := vals[rpc.PropDirectory]; v != "missing" {
			_, err := strconv.ParseBool(v)
			good = good && err == nil
		}
		for _, k := range []string{rpc.PropMaxAttachmentSize, rpc.PropMaxChunkSize, rpc.PropMaxMsgSize} {
			if _, err := strconv.ParseUint(vals[k], 10, 64); err != nil {
				good = false
			}
		}
		what := fmt.Sprintf("%v", cs)
		// any answer is fine for these, as long as the client survives
		odd := vals[rpc.PropServerTime] == "-1"
		fs := queueFS()
		history(c, "welcome", fs, []ev[*nmodel]{{"welcome", func(m *nmodel) {
			l := m.a.links[0]
			l.serve(welcome(ps))
			if good == l.dead() && !odd {
				mc.Fail("client goes online: %v, want %v", !good, good)
			}
			if l.dead() {
				l.c.Close()
				return
			}
			m.l = l
		}}}, []int{0}, []string{what}, func() *nmodel {
			forever()
			m := &nmodel{mode: "welcomes", cert: string(srvCert), accepted: string(srvCert)}
			m.a = start(aliceID)
			m.seen = 1
			return m
		}, func(m *nmodel) string {
			s := "refused"
			if m.l != nil {
				s = "online"
				l := m.l
				msz := u(rpc.PropMaxMsgSize)
				for _, cmd := range []string{"/m bob text", "/send bob /c/f.txt"} {
					m.a.cmd("%s", cmd)
				}
				for n := 0; n < 10; n++ {
					ms := l.poll()
					for _, r := range ms {
						if uint64(len(r.raw)) > msz {
							mc.Fail("client sends %d bytes, at most %d are allowed", len(r.raw), msz)
						}
					}
					l.ack(ms)
				}
				if m.a.done {
					mc.Fail("client ended")
				}
				if msz > 4096 && depth > 0 {
					m.a.alive(l, m.a.peer(bobID), "hello")
				}
				l.c.Close()
				m.l = nil
				mc.Quiesce()
			}
			if m.a.cmdNow("/online"); good && u(rpc.PropMaxMsgSize) < 1024 || depth == 0 {
				return s + ", useless limits" // which the next welcome or acknowledgement exceeds
			}
			mc.Quiesce()
			l := m.a.links[len(m.a.links)-1]
			l.serve(welcome(props(false)))
			if l.dead() {
				mc.Fail("client does not go online with good properties; %s", m.a.tail())
			}
			m.a.alive(l, m.a.peer(bobID), "hello again")
			return s
		})
		c.R.Traces++
		c.R.States++
	}
	// other first messages
	for i, w := range [][]byte{{}, {0, 0, 0}, xenc(rpc.Message{Command: "nonsense"}), xenc(rpc.Message{Command: rpc.SessionCmdWelcome}),
		xenc(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 1}, rpc.Push{}), xenc(rpc.Message{Command: rpc.SessionCmdUnwelcome}), []byte(strings.Repeat("\xff", 64)),
		xenc(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{Version: rpc.ProtocolVersion}),
		append(xenc(rpc.Message{Command: rpc.SessionCmdWelcome}), 0, 0, 0, 9, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0)} {
		if !c.Mine(i) {
			continue
		}
		w := w
		history(c, "first message", baseFS, []ev[*nmodel]{{"message", func(m *nmodel) {
			l := m.a.links[0]
			l.serve(w)
			if !l.dead() {
				mc.Fail("client stays connected")
			}
			m.settle()
		}}}, []int{0}, []string{fmt.Sprintf("%q", w)}, func() *nmodel {
			forever()
			m := &nmodel{mode: "welcomes", cert: string(srvCert), accepted: string(srvCert)}
			m.a = start(aliceID)
			m.seen = 1
			return m
		}, (*nmodel).end)
	}
}

var _ = vfs.Cur
