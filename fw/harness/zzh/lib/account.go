//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vtime"
)

func id32(s string) (r [32]byte) {
	copy(r[:], s)
	for i := len(s); i < 32; i++ {
		r[i] = byte(i)
	}
	return
}

var (
	alice = id32("alice")
	bob   = id32("bob")
	carol = id32("carol")
)

func hexID(i [32]byte) string { return fmt.Sprintf("%x", i[:]) }

const aroot = "/srv/home"

// amodel drives one mailbox and records what was accepted and observed.
type amodel struct {
	a        *account.Account
	accepted map[string]int // payload -> order of acceptance (return)
	begun    map[string]int
	from     map[string][32]byte
	clear    map[string]bool
	acked    map[string]bool
	n        int
	all      []string
	sess     int
}

func newModel() *amodel {
	return &amodel{accepted: map[string]int{}, begun: map[string]int{}, from: map[string][32]byte{}, clear: map[string]bool{}, acked: map[string]bool{}}
}

func (m *amodel) open() {
	var err error
	m.a, err = account.New(aroot)
	if err != nil {
		mc.Fail("account.New: %v", err)
	}
}

func acctSetup() {
	fs := vfs.Reset()
	fs.PutDir(aroot + "/" + hexID(alice) + "/cache")
	fs.PutDir(aroot + "/" + hexID(bob) + "/cache")
	vtime.Hook = nil
	mc.MapDesc = false
}

func (m *amodel) deliver(from [32]byte, p string, clear bool) {
	mc.Touch("model", true)
	m.n++
	m.begun[p] = m.n
	m.from[p] = from
	m.clear[p] = clear
	_, err := m.a.Deliver(alice, from, []byte(p), clear)
	mc.Touch("model", true)
	m.n++
	if err == nil {
		m.accepted[p] = m.n
	}
}

// session is one online period of alice.
type session struct {
	m    *amodel
	ch   chan *account.Notification
	got  []string
	ids  []string
	ack  bool
	max  int
	over bool // Offline was called: what still trickles in is not ordered
}

func (m *amodel) online(capacity int) (*session, error) {
	s := &session{m: m, ch: make(chan *account.Notification, capacity), ack: true, max: 1 << 30}
	return s, m.a.Online(alice, s.ch)
}

// one receives a notification.
func (s *session) one() bool {
	n, ok := mc.Recv2(s.ch)
	if !ok {
		mc.Fail("notification channel closed")
	}
	s.take(n)
	return true
}

func (s *session) take(n *account.Notification) {
	m := s.m
	if n.Error != nil {
		mc.Fail("mailbox reader reported an error although storage works: %v", n.Error)
	}
	p := string(n.Payload)
	mc.Touch("model", true)
	if _, ok := m.begun[p]; !ok {
		mc.Fail("pushed a message nobody sent: %q", p)
	}
	if m.acked[p] {
		mc.Fail("message %q pushed again after it was acknowledged", p)
	}
	for _, g := range s.got {
		if g == p {
			mc.Fail("message %q pushed twice in one session", p)
		}
	}
	if n.From != m.from[p] || n.Cleartext != m.clear[p] || n.To != alice {
		mc.Fail("message %q pushed with wrong attributes: from %x to %x cleartext %v", p, n.From[:4], n.To[:4], n.Cleartext)
	}
	for _, g := range s.got {
		if s.over {
			break
		}
		// g came first: it must not have begun after p was accepted
		if m.accepted[p] != 0 && m.accepted[p] < m.begun[g] {
			mc.Fail("order: %q pushed before %q although it was sent later", g, p)
		}
	}
	s.got = append(s.got, p)
	s.ids = append(s.ids, n.Identifier)
	if s.ack {
		if err := m.a.Delete(alice, n.Identifier); err != nil {
			mc.Fail("acknowledging %q failed: %v", p, err)
		}
		mc.Touch("model", true)
		m.acked[p] = true
	}
}

// reader consumes until the execution ends.
func (s *session) reader() {
	for i := 0; i < s.max; i++ {
		s.one()
	}
}

// final checks that everything accepted reached the live session.
func (s *session) final(prev map[string]bool) {
	m := s.m
	have := map[string]bool{}
	for _, g := range s.got {
		have[g] = true
	}
	var acc []string
	for p := range m.accepted {
		acc = append(acc, p)
	}
	sort.Strings(acc)
	for _, p := range acc {
		if !have[p] && !prev[p] {
			mc.Fail("accepted message %q never reached the online user; blocked: %v", p, mc.Blocked())
		}
	}
	if s.ack {
		for _, p := range acc {
			if !m.acked[p] {
				mc.Fail("message %q not acknowledged", p)
			}
		}
		if l := vfs.Cur.List(aroot + "/" + hexID(alice) + "/cache"); len(l) != 0 {
			mc.Fail("mailbox not empty after everything was acknowledged: %v", l)
		}
	}
}

func (s *session) String() string { return strings.Join(s.got, ",") }

func acctScenarios(c *mc.Ctx) {
	pb := c.Pick(2, 3)
	type sc struct {
		name  string
		bound int
		body  func(x *mc.X, m *amodel)
	}
	list := []sc{
		{"online-vs-deliver", pb + 1, func(x *mc.X, m *amodel) {
			mc.GoNamed("sender", func() { m.deliver(bob, "m1", false) })
			s, err := m.online(2)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v", s)
		}},
		{"backlog-then-live", pb, func(x *mc.X, m *amodel) {
			m.deliver(bob, "m0", false)
			s, err := m.online(2)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("sender", func() { m.deliver(bob, "m1", false); m.deliver(bob, "m2", true) })
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v", s)
		}},
		{"two-senders", pb, func(x *mc.X, m *amodel) {
			s, err := m.online(1)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("bob", func() { m.deliver(bob, "b1", false); m.deliver(bob, "b2", false) })
			mc.GoNamed("carol", func() { m.deliver(carol, "c1", true) })
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v", s)
		}},
		{"slow-reader", pb, func(x *mc.X, m *amodel) {
			m.deliver(bob, "m0", false)
			m.deliver(bob, "m1", false)
			s, err := m.online(0)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("sender", func() { m.deliver(bob, "m2", false) })
			mc.Quiesce()
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v", s)
		}},
		{"late-ack", pb, func(x *mc.X, m *amodel) {
			// acknowledgements of the backlog race with new deliveries
			m.deliver(bob, "m0", false)
			m.deliver(bob, "m1", false)
			s, err := m.online(4)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.Quiesce()
			mc.GoNamed("sender", func() { m.deliver(bob, "m2", false) })
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v", s)
		}},
		{"offline-online", pb, func(x *mc.X, m *amodel) {
			m.deliver(bob, "m0", false)
			s, err := m.online(2)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			s.max = 1
			mc.GoNamed("reader", s.reader)
			mc.GoNamed("sender", func() { m.deliver(bob, "m1", false); m.deliver(bob, "m2", false) })
			mc.GoNamed("net", func() { s.over = true; m.a.Offline(alice) })
			mc.Quiesce()
			acked := map[string]bool{}
			for k := range m.acked {
				acked[k] = true
			}
			s2, err := m.online(4)
			if err != nil {
				mc.Fail("second login refused: %v", err)
			}
			mc.GoNamed("reader2", s2.reader)
			mc.Quiesce()
			s2.final(acked)
			x.Outcome("%v|%v", s, s2)
		}},
		{"unacked-redelivered", pb, func(x *mc.X, m *amodel) {
			m.deliver(bob, "m0", false)
			m.deliver(bob, "m1", true)
			s, err := m.online(4)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			s.ack = false
			mc.GoNamed("reader", s.reader)
			mc.GoNamed("sender", func() { m.deliver(carol, "m2", false) })
			mc.Quiesce()
			s.final(nil)
			m.a.Offline(alice)
			s2, err := m.online(4)
			if err != nil {
				mc.Fail("second login refused: %v", err)
			}
			mc.GoNamed("sender2", func() { m.deliver(bob, "m3", false) })
			mc.GoNamed("reader2", s2.reader)
			mc.Quiesce()
			s2.final(nil)
			x.Outcome("%v|%v", s, s2)
		}},
		{"blocked-push-then-offline", pb, func(x *mc.X, m *amodel) {
			// the session stops reading while the mailbox is blocked on it
			m.deliver(bob, "m0", false)
			m.deliver(bob, "m1", false)
			s, err := m.online(0)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			s.max = 1
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			mc.GoNamed("net", func() { s.over = true; m.a.Offline(alice) })
			mc.GoNamed("sender", func() { m.deliver(bob, "m2", false) })
			mc.Quiesce()
			for _, b := range mc.Blocked() {
				if !strings.Contains(b, "reader") {
					mc.Fail("mailbox goroutine left behind after the user went offline: %s", b)
				}
			}
			acked := map[string]bool{}
			for k := range m.acked {
				acked[k] = true
			}
			s2, err := m.online(4)
			if err != nil {
				mc.Fail("second login refused: %v", err)
			}
			mc.GoNamed("reader2", s2.reader)
			mc.Quiesce()
			s2.final(acked)
			x.Outcome("%v|%v", s, s2)
		}},
		{"double-online", pb, func(x *mc.X, m *amodel) {
			m.deliver(bob, "m0", false)
			res := make([]*session, 2)
			errs := make([]error, 2)
			for i := 0; i < 2; i++ {
				i := i
				mc.GoNamed(fmt.Sprintf("login%d", i), func() {
					res[i], errs[i] = m.online(4)
					mc.Touch("model", true)
				})
			}
			mc.Quiesce()
			if (errs[0] == nil) == (errs[1] == nil) {
				mc.Fail("two concurrent logins: results %v and %v", errs[0], errs[1])
			}
			s := res[0]
			if errs[0] != nil {
				s = res[1]
			}
			mc.GoNamed("sender", func() { m.deliver(bob, "m1", false) })
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v %v", errs[0] == nil, s)
		}},
		{"same-instant", pb, func(x *mc.X, m *amodel) {
			// the clock does not advance between two senders
			vtime.Hook = func() (int64, bool) { return 1600000000000000000, true }
			s, err := m.online(4)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("reader", s.reader)
			mc.GoNamed("bob", func() { m.deliver(bob, "b1", false) })
			mc.GoNamed("carol", func() { m.deliver(carol, "c1", false) })
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v acc=%d", s, len(m.accepted))
		}},
		{"same-instant-offline", pb, func(x *mc.X, m *amodel) {
			vtime.Hook = func() (int64, bool) { return 1600000000000000000, true }
			mc.GoNamed("bob", func() { m.deliver(bob, "b1", false) })
			mc.GoNamed("carol", func() { m.deliver(carol, "c1", false) })
			mc.Quiesce()
			s, err := m.online(4)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%v acc=%d", s, len(m.accepted))
		}},
		{"other-mailbox", pb, func(x *mc.X, m *amodel) {
			// traffic to somebody else must not disturb or leak
			s, err := m.online(2)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			bch := make(chan *account.Notification, 4)
			mc.GoNamed("bobonline", func() {
				if err := m.a.Online(bob, bch); err != nil {
					mc.Fail("online bob: %v", err)
				}
			})
			mc.GoNamed("reader", s.reader)
			mc.GoNamed("sender", func() { m.deliver(carol, "m1", false) })
			mc.GoNamed("sender2", func() {
				if _, err := m.a.Deliver(bob, carol, []byte("forbob"), false); err != nil {
					mc.Fail("deliver bob: %v", err)
				}
			})
			mc.Quiesce()
			s.final(nil)
			if n := mc.Len(bch); n != 1 {
				mc.Fail("bob has %d notifications, want 1", n)
			}
			if n := mc.Recv(bch); n.Error != nil || string(n.Payload) != "forbob" || n.To != bob || n.From != carol {
				mc.Fail("bob received %+v", n)
			}
			x.Outcome("%v", s)
		}},
		{"many", 0, func(x *mc.X, m *amodel) {
			// a mailbox that filled up for a long time
			mc.Calm(true)
			for i := 0; i < 300; i++ {
				m.deliver(bob, fmt.Sprintf("m%d", i), i%7 == 0)
			}
			s, err := m.online(4)
			if err != nil {
				mc.Fail("online: %v", err)
			}
			mc.GoNamed("reader", s.reader)
			mc.Quiesce()
			s.final(nil)
			for i := 0; i < 300; i++ {
				m.deliver(bob, fmt.Sprintf("n%d", i), false)
			}
			mc.Quiesce()
			s.final(nil)
			x.Outcome("%d", len(s.got))
		}},
		{"unknown-recipient", pb, func(x *mc.X, m *amodel) {
			_, err := m.a.Deliver(carol, bob, []byte("x"), false)
			if err == nil {
				mc.Fail("message to an unknown user was accepted")
			}
			if err := m.a.Delete(alice, "nosuch"); err == nil {
				mc.Fail("acknowledging an unknown message succeeded")
			}
		}},
	}
	for _, s := range list {
		s := s
		c.Scenario(&mc.Scenario{
			Name: s.name, Bound: s.bound, Setup: acctSetup,
			Body: func(x *mc.X) {
				m := newModel()
				m.open()
				s.body(x, m)
			},
		})
	}
}

func init() {
	mc.Register(&mc.Check{ID: "A01", Level: "model_checking",
		Rule: "every interleaving of mailbox operations up to the deviation bound; an outcome is distinct when the sequence of pushed messages or the set of accepted ones differs",
		Run:  acctScenarios,
		Assumptions: []string{"visible operations are locks, channels, spawns, clock reads and file system calls; data races are looked for separately",
			"file system operations are atomic and sequentially consistent"}})
}

var _ = sort.Strings
