//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vtime"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// ---- A02: durability of accepted messages ----

type mop struct {
	kind string // send, sendclear, ack, restart, login
	p    string
	from [32]byte
	i    int
}

func (o mop) String() string {
	switch o.kind {
	case "ack":
		return fmt.Sprintf("ack #%d", o.i)
	}
	return o.kind + " " + o.p
}

// mbox is the reference mailbox.
type mbox struct {
	a     *account.Account
	order []string
	msgs  map[string]mop
	names map[string]string // payload -> identifier learnt
}

// drain logs alice in and returns everything that is pushed.
func drainMailbox(a *account.Account) (got []*account.Notification, fail string) {
	fail = mc.RunOnce(func() {
		ch := make(chan *account.Notification, 64)
		if err := a.Online(alice, ch); err != nil {
			mc.Fail("login after restart refused: %v", err)
		}
		mc.Quiesce()
		for mc.Len(ch) > 0 {
			got = append(got, mc.Recv(ch))
		}
		a.Offline(alice)
		mc.Quiesce()
	})
	return
}

func bigPayload(n int) string { return strings.Repeat("payload-", n) }

func a02Alphabet() []mop {
	return []mop{
		{kind: "send", p: "m1", from: bob},
		{kind: "sendclear", p: bigPayload(3), from: carol},
		{kind: "ack", i: 0},
		{kind: "ack", i: 1},
		{kind: "send", p: "", from: bob},
		{kind: "old", p: "m0", from: carol},
	}
}

// oldMessage is what earlier versions of the server stored.
type oldMessage struct {
	From     [zkidentity.IdentitySize]byte
	Received int64
	Payload  []byte
}

// a02 runs a history on fresh state; the last operation is executed by last.
func (m *mbox) do(o mop) error {
	switch o.kind {
	case "send", "sendclear":
		_, err := m.a.Deliver(alice, o.from, []byte(o.p), o.kind == "sendclear")
		return err
	case "old":
		var b bytes.Buffer
		if _, err := xdr.Marshal(&b, oldMessage{From: o.from, Received: wall, Payload: []byte(o.p)}); err != nil {
			return err
		}
		vfs.Cur.Put(cacheDir()+"/20160102150405.000000000", b.Bytes())
	case "ack":
		if o.i >= len(m.order) {
			return nil
		}
		return m.a.Delete(alice, m.order[o.i])
	}
	return nil
}

type amsg struct {
	id    string
	p     string
	from  [32]byte
	clear bool
	at    int64 // when it was accepted
}

func (a amsg) String() string {
	return fmt.Sprintf("%.12s/%s/%v@%d", a.p, string(a.from[:3]), a.clear, a.at)
}

// wall is the wall clock of A02, in seconds; it stands still within an
// operation, except for the nanoseconds.
var wall, wallNano int64

const wallStart = 1700000000

func msgList(l []amsg) string {
	var s []string
	for _, m := range l {
		s = append(s, m.String())
	}
	return strings.Join(s, " ")
}

func cacheDir() string { return aroot + "/" + hexID(alice) + "/cache" }

func checkA02(c *mc.Ctx) {
	al := a02Alphabet()
	seqs(c, len(al), c.Pick(3, 4), func(s []int) bool {
		if len(s) == 0 {
			return true
		}
		key := ""
		for i, k := range s {
			if al[k].kind == "old" && (i != 0 || len(s) == 1) {
				return true // was there before
			}
			key += al[k].String() + "; "
		}
		prepare := func() (*mbox, []amsg, bool) {
			fs := fresh()
			vtime.Hook = func() (int64, bool) { wallNano++; return wall*1e9 + wallNano%1e9, true }
			fs.PutDir(cacheDir())
			fs.PutDir(aroot + "/" + hexID(bob) + "/cache")
			a, err := account.New(aroot)
			if err != nil {
				c.Violate("open", key, "%v", err)
				return nil, nil, false
			}
			m := &mbox{a: a}
			var have []amsg
			for i, k := range s[:len(s)-1] {
				o := al[k]
				wall = wallStart + int64(i)*100
				before := fs.List(cacheDir())
				if o.kind == "ack" && o.i >= len(m.order) {
					return nil, nil, false
				}
				if err := m.do(o); err != nil {
					c.Violate("op", key, "%s: %v failed: %v", key, o, err)
					return nil, nil, false
				}
				if o.kind == "ack" {
					m.order = append(m.order[:o.i], m.order[o.i+1:]...)
					have = append(have[:o.i], have[o.i+1:]...)
					continue
				}
				n := newName(before, fs.List(cacheDir()))
				m.order = append(m.order, n)
				have = append(have, amsg{n, o.p, o.from, o.kind == "sendclear", wall})
			}
			wall = wallStart + int64(len(s)-1)*100
			lo := al[s[len(s)-1]]
			if lo.kind == "ack" && lo.i >= len(m.order) {
				return nil, nil, false
			}
			return m, have, true
		}
		verify := func(what string, have []amsg, last mop, done, failed bool) string {
			with := append([]amsg(nil), have...)
			without := append([]amsg(nil), have...)
			if last.kind == "ack" {
				with = append(with[:last.i:last.i], with[last.i+1:]...)
			} else {
				with = append(with, amsg{"", last.p, last.from, last.kind == "sendclear", wallStart + int64(len(s)-1)*100})
			}
			wall = wallStart + 5000
			return mc.Guard(func() {
				a, err := account.New(aroot)
				if err != nil {
					mc.Fail("server does not start: %v", err)
				}
				got, fail := drainMailbox(a)
				if fail != "" {
					mc.Fail("%s", fail)
				}
				var gl []amsg
				for _, n := range got {
					if n.Error != nil {
						mc.Fail("mailbox poisoned: %v", n.Error)
					}
					gl = append(gl, amsg{n.Identifier, string(n.Payload), n.From, n.Cleartext, n.Received})
				}
				g := msgList(gl)
				if done && g != msgList(with) {
					mc.Fail("operation completed but the mailbox holds [%v], want [%v]", g, msgList(with))
				}
				if g != msgList(with) && g != msgList(without) {
					mc.Fail("mailbox holds [%v], want [%v] or [%v]", g, msgList(without), msgList(with))
				}
				c.Eval(fmt.Sprintf("%s | %s | %v %v", msgList(have), last, failed, g == msgList(with)))
				// business as usual afterwards
				if _, err := a.Deliver(alice, bob, []byte("after"), false); err != nil {
					mc.Fail("delivery after restart: %v", err)
				}
				for _, n := range got {
					if err := a.Delete(alice, n.Identifier); err != nil {
						mc.Fail("acknowledging after restart: %v", err)
					}
				}
				got, fail = drainMailbox(a)
				if fail != "" || len(got) != 1 || got[0].Error != nil || string(got[0].Payload) != "after" {
					mc.Fail("after restart and acknowledgements: %v %v", fail, got)
				}
			})
		}
		last := al[s[len(s)-1]]
		m, have, ok := prepare()
		if !ok {
			return len(c.R.Violations) == 0
		}
		fs := vfs.Cur
		base := fs.Clone()
		fs.Log = nil
		if err := m.do(last); err != nil {
			c.Violate("op", key, "%s: %v failed: %v", key, last, err)
			return false
		}
		log := fs.Log
		bad := ""
		n := vfs.Crashes(base, log, 0, true, func(cr vfs.Crash) bool {
			vfs.Cur = cr.FS
			if r := verify(key, have, last, cr.After == len(log), false); r != "" {
				bad = fmt.Sprintf("%s; %v %v: %s", key, cr, log, r)
				return false
			}
			return true
		})
		c.R.Traces += n
		if bad != "" {
			c.Violate("crash", key, "%s", bad)
			return false
		}
		okf := true
		faults(c, !c.Quick(), func(p *faultPlan) bool {
			m, have, ok := prepare()
			if !ok {
				return false
			}
			fs := vfs.Cur
			p.install(fs)
			err := m.do(last)
			fs.Fault, fs.Short = nil, nil
			if r := verify(key, have, last, err == nil, true); r != "" {
				c.Violate("fault", key, "%s; %v (result %v): %s", key, p, err, r)
				okf = false
				return false
			}
			// a retry works
			if err != nil && last.kind != "ack" {
				wall = wallStart + 6000
				if err := m.do(last); err != nil {
					c.Violate("fault", key, "%s; %v: retry failed: %v", key, p, err)
					okf = false
					return false
				}
			}
			return true
		})
		c.R.Transitions += len(log)
		c.Sample(map[string]interface{}{"history": key, "log": fmt.Sprint(log), "crash_states": n})
		return okf && !c.Expired()
	})
	c.R.States = c.R.Evals
}

func newName(before, after []string) string {
	b := map[string]bool{}
	for _, x := range before {
		b[x] = true
	}
	for _, x := range after {
		if !b[x] {
			return x
		}
	}
	return ""
}

// ---- A03/A04: account lifecycle and directory ----

func pubid(nick, seed string) *zkidentity.FullIdentity {
	id, err := zkidentity.New(nick+" name", nick)
	if err != nil {
		panic(err)
	}
	return id
}

type acct struct {
	exists, disabled, listed bool
	mail                     []string
}

type aop struct {
	kind string
	who  int
}

func (o aop) String() string { return fmt.Sprintf("%s(%d)", o.kind, o.who) }

// asim drives the real accounts and the model.
type asim struct {
	a    *account.Account
	ids  []zkidentity.PublicIdentity
	m    []acct
	mail int
}

func (s *asim) key() string { return fmt.Sprint(s.m) }

// step runs o and says whether the model expects success.
func (s *asim) step(o aop) error {
	id := s.ids[o.who].Identity
	switch o.kind {
	case "create":
		return s.a.Create(s.ids[o.who], false)
	case "list":
		return s.a.Push(id)
	case "unlist":
		return s.a.Pull(id)
	case "disable":
		return s.a.Disable(id)
	case "enable":
		return s.a.Enable(id)
	case "deliver":
		_, err := s.a.Deliver(id, bob, []byte(fmt.Sprintf("mail%d", s.mail)), false)
		return err
	}
	panic("bad op")
}

// apply updates the model and returns whether o must succeed.
func (s *asim) apply(o aop) bool {
	m := &s.m[o.who]
	switch o.kind {
	case "create":
		if m.exists {
			return false
		}
		for i := range s.m {
			if s.m[i].exists && s.m[i].listed && s.ids[i].Nick == s.ids[o.who].Nick {
				return false
			}
		}
		m.exists = true
	case "list":
		if !m.exists || m.disabled {
			return false
		}
		m.listed = true
	case "unlist":
		if !m.exists || m.disabled {
			return false
		}
		m.listed = false
	case "disable":
		if !m.exists || m.disabled {
			return false
		}
		m.disabled = true
	case "enable":
		if !m.exists || !m.disabled {
			return false
		}
		m.disabled = false
	case "deliver":
		s.mail++
		if !m.exists || m.disabled {
			return false
		}
		m.mail = append(m.mail, fmt.Sprintf("mail%d", s.mail-1))
	}
	return true
}

func copyModel(m []acct) []acct {
	n := append([]acct(nil), m...)
	for i := range n {
		n[i].mail = append([]string(nil), n[i].mail...)
	}
	return n
}

// observe renders everything visible about account state.
func (s *asim) observe(dir bool) string {
	var l []string
	for i := range s.ids {
		id := s.ids[i].Identity
		var mail []string
		for _, st := range []string{"", "."} {
			d := aroot + "/" + st + hexID(id) + "/cache"
			for _, f := range vfs.Cur.List(d) {
				b, _ := vfs.Cur.Read(d + "/" + f)
				for k := 0; k < s.mail+1; k++ {
					if w := fmt.Sprintf("mail%d", k); strings.Contains(string(b), w) {
						mail = append(mail, w)
					}
				}
			}
		}
		l = append(l, fmt.Sprintf("%d: enabled=%v disabled=%v mail=%v", i, s.a.Enabled(id), s.a.Disabled(id), mail))
	}
	return strings.Join(l, "; ")
}

func (s *asim) expect() string {
	var l []string
	for i := range s.m {
		m := s.m[i]
		mail := []string{}
		if m.exists {
			mail = m.mail
		}
		l = append(l, fmt.Sprintf("%d: enabled=%v disabled=%v mail=%v", i, m.exists && !m.disabled, m.exists && m.disabled, mail))
	}
	return strings.Join(l, "; ")
}

// directory checks Find for every nick.
func (s *asim) directory() {
	nicks := map[string]bool{"nobody": true, "an": true}
	for i := range s.ids {
		nicks[s.ids[i].Nick] = true
	}
	var nl []string
	for n := range nicks {
		nl = append(nl, n)
	}
	sort.Strings(nl)
	for _, n := range nl {
		var want []string
		optional := false
		for i := range s.m {
			if s.m[i].exists && s.m[i].listed && s.ids[i].Nick == n {
				want = append(want, fmt.Sprint(s.ids[i]))
				optional = optional || s.m[i].disabled
			}
		}
		pid, err := s.a.Find(n)
		if err != nil {
			if len(want) > 0 && !optional {
				mc.Fail("listed user %q is not found: %v", n, err)
			}
			continue
		}
		ok := false
		for _, w := range want {
			ok = ok || w == fmt.Sprint(*pid)
		}
		if !ok {
			mc.Fail("search for %q returned an identity that is not listed under that nick: %v", n, pid.Nick)
		}
		if !pid.Verify() {
			mc.Fail("search for %q returned an identity that does not verify", n)
		}
	}
}

var cachedIDs []zkidentity.PublicIdentity

func newAsim() *asim {
	if cachedIDs == nil {
		for _, n := range []string{"anna", "bert", "anna"} {
			cachedIDs = append(cachedIDs, pubid(n, n).Public)
		}
	}
	a, err := account.New(aroot)
	if err != nil {
		mc.Fail("account.New: %v", err)
	}
	return &asim{a: a, ids: cachedIDs, m: make([]acct, len(cachedIDs))}
}

func aAlphabet() []aop {
	var l []aop
	for _, k := range []string{"create", "list", "disable", "enable", "deliver", "unlist"} {
		l = append(l, aop{k, 0})
	}
	l = append(l, aop{"create", 2}, aop{"list", 2}, aop{"disable", 2}, aop{"create", 1}, aop{"list", 1})
	return l
}

func opsString(al []aop, s []int) string {
	var l []string
	for _, i := range s {
		l = append(l, al[i].String())
	}
	return strings.Join(l, " ")
}

// playAsim replays a history and returns the simulator.
func (s *asim) play(al []aop, h []int, key string) {
	for i, k := range h {
		o := al[k]
		err := s.step(o)
		want := s.apply(o)
		if (err == nil) != want {
			mc.Fail("%s: %v returned %v, expected success=%v", opsString(al, h[:i+1]), o, err, want)
		}
		if g, w := s.observe(false), s.expect(); g != w {
			mc.Fail("%s: accounts are [%s], want [%s]", opsString(al, h[:i+1]), g, w)
		}
		s.directory()
	}
}

func checkA03(c *mc.Ctx) {
	al := aAlphabet()
	// explicit state search: expand every model state once with every
	// operation, checking each transition against the implementation and
	// every crash point of it
	seen := map[string]bool{}
	type node struct{ h []int }
	fresh()
	frontier := []node{{nil}}
	s0 := newAsim()
	seen[s0.key()] = true
	depth := c.Pick(5, 7)
	work := 0
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []node
		for _, nd := range frontier {
			for k := range al {
				h := append(append([]int(nil), nd.h...), k)
				// successor by the model alone, the work is shared
				fresh()
				sm := &asim{ids: s0.ids, m: make([]acct, len(s0.ids))}
				for _, x := range h {
					sm.apply(al[x])
				}
				for i := range sm.m {
					if len(sm.m[i].mail) > 1 {
						sm = nil
						break
					}
				}
				if sm == nil {
					continue
				}
				if kk := sm.key(); !seen[kk] {
					seen[kk] = true
					next = append(next, node{h})
				}
				work++
				if !c.Mine(work) {
					continue
				}
				if c.Expired() {
					return
				}
				if !a03Transition(c, al, h) {
					return
				}
			}
		}
		frontier = next
	}
	c.R.States = len(seen) / c.Workers
	if c.Worker == 0 {
		c.R.States += len(seen) % c.Workers
	}
	if len(frontier) > 0 {
		c.Note("depth bound", depth)
	}
}

func nickTaken(r *asim, i int) bool {
	for k := range r.m {
		if k != i && r.m[k].exists && r.m[k].listed && r.ids[k].Nick == r.ids[i].Nick {
			return true
		}
	}
	return false
}

func a03Transition(c *mc.Ctx, al []aop, h []int) bool {
	key := opsString(al, h)
	fs := fresh()
	var s *asim
	if m := mc.Guard(func() { s = newAsim(); s.play(al, h[:len(h)-1], key) }); m != "" {
		c.Violate("history", key, "%s", m)
		return false
	}
	last := al[h[len(h)-1]]
	base := fs.Clone()
	fs.Log = nil
	before := copyModel(s.m)
	mail := s.mail
	if m := mc.Guard(func() { s.play(al, h[len(h)-1:], key) }); m != "" {
		c.Violate("history", key, "%s: %s", opsString(al, h[:len(h)-1]), m)
		return false
	}
	log := fs.Log
	after := copyModel(s.m)
	c.R.Transitions++
	c.Eval(fmt.Sprintf("%v %v", last, after))
	recover := func(done bool) string {
		return mc.Guard(func() {
			r := newAsim()
			r.mail = mail + 1
			got := r.observe(false)
			r.m = before
			w1 := r.expect()
			r.m = after
			w2 := r.expect()
			if done && got != w2 {
				mc.Fail("completed operation lost: [%s], want [%s]", got, w2)
			}
			switch got {
			case w2:
				r.m = copyModel(after)
			case w1:
				r.m = copyModel(before)
			default:
				mc.Fail("accounts are [%s], want [%s] or [%s]", got, w1, w2)
			}
			// the listing is only visible through the directory
			if last.kind == "list" || last.kind == "unlist" {
				m := mc.Guard(func() { r.directory() })
				if m != "" && !done {
					r.m = copyModel(before)
					r.directory()
				} else if m != "" {
					mc.Fail("%s", m)
				}
			} else {
				r.directory()
			}
			// the interrupted operation can be carried out
			if got == w1 && w1 != w2 {
				r.mail = mail
				err := r.step(last)
				want := r.apply(last)
				if (err == nil) != want {
					mc.Fail("after recovery %v returned %v, expected success=%v", last, err, want)
				}
				if g, w := r.observe(false), r.expect(); g != w {
					mc.Fail("after recovery and %v accounts are [%s], want [%s]", last, g, w)
				}
			}
			// every live account can receive mail and be listed
			for i := range r.m {
				if r.m[i].exists && !r.m[i].disabled {
					for _, k := range []string{"deliver", "list"} {
						o := aop{k, i}
						if k == "list" && nickTaken(r, i) {
							continue
						}
						if err := r.step(o); err != nil {
							mc.Fail("after recovery %v fails: %v", o, err)
						}
						r.apply(o)
					}
				}
			}
			r.directory()
		})
	}
	bad := ""
	n := vfs.Crashes(base, log, 2, true, func(cr vfs.Crash) bool {
		vfs.Cur = cr.FS
		if m := recover(cr.After == len(log)); m != "" {
			bad = fmt.Sprintf("%s; %v %v: %s", key, cr, log, m)
			return false
		}
		return true
	})
	c.R.Traces += n
	c.Sample(map[string]interface{}{"history": key, "log": fmt.Sprint(log), "crash_states": n})
	if bad != "" {
		c.Violate("crash", key, "%s", bad)
		return false
	}
	return true
}

// checkA04: directory under concurrency: Find while accounts come and go.
func checkA04(c *mc.Ctx) {
	pb := c.Pick(2, 3)
	var ids []zkidentity.PublicIdentity
	for _, n := range []string{"anna", "bert", "zoe"} {
		ids = append(ids, pubid(n, n).Public)
	}
	type sc struct {
		name string
		ops  []func(a *account.Account) error
	}
	create := func(i int) func(a *account.Account) error {
		return func(a *account.Account) error { return a.Create(ids[i], false) }
	}
	list := func(i int) func(a *account.Account) error {
		return func(a *account.Account) error { return a.Push(ids[i].Identity) }
	}
	disable := func(i int) func(a *account.Account) error {
		return func(a *account.Account) error { return a.Disable(ids[i].Identity) }
	}
	cycle := func(i int) func(a *account.Account) error {
		return func(a *account.Account) error {
			if err := a.Disable(ids[i].Identity); err != nil {
				return err
			}
			return a.Enable(ids[i].Identity)
		}
	}
	deliver := func(i int) func(a *account.Account) error {
		return func(a *account.Account) error {
			_, err := a.Deliver(ids[i].Identity, bob, []byte("x"), false)
			return err
		}
	}
	_ = disable
	for _, s := range []sc{
		{"create-while-searching", []func(a *account.Account) error{create(2)}},
		{"list-while-searching", []func(a *account.Account) error{list(1)}},
		{"disable-while-searching", []func(a *account.Account) error{disable(1)}},
		{"cycle-while-searching", []func(a *account.Account) error{cycle(1)}},
		{"create-and-deliver", []func(a *account.Account) error{create(2), deliver(0)}},
		{"relist-while-searching", []func(a *account.Account) error{list(0), list(1)}},
	} {
		s := s
		c.Scenario(&mc.Scenario{Name: s.name, Bound: pb, Setup: func() {
			fresh()
			a, _ := account.New(aroot)
			for i := 0; i < 2; i++ {
				if err := a.Create(ids[i], false); err != nil {
					panic(err)
				}
			}
			a.Push(ids[0].Identity)
		}, Body: func(x *mc.X) {
			a, err := account.New(aroot)
			if err != nil {
				mc.Fail("%v", err)
			}
			for i, f := range s.ops {
				f := f
				mc.GoNamed(fmt.Sprintf("op%d", i), func() {
					if err := f(a); err != nil {
						mc.Fail("operation failed: %v", err)
					}
				})
			}
			mc.GoNamed("search", func() {
				for i := 0; i < 2; i++ {
					pid, err := a.Find("anna")
					if err != nil {
						mc.Fail("listed user not found while other accounts change: %v", err)
					}
					if fmt.Sprint(*pid) != fmt.Sprint(ids[0]) {
						mc.Fail("wrong identity found")
					}
				}
				pid, err := a.Find("bert")
				x.Outcome("bert %v", err == nil)
				if err == nil && fmt.Sprint(*pid) != fmt.Sprint(ids[1]) {
					mc.Fail("wrong identity found")
				}
			})
			mc.Quiesce()
			if b := mc.Blocked(); len(b) > 0 {
				mc.Fail("stuck: %v", b)
			}
		}})
	}
	// every subset of listed users, every query
	nicks := []string{"anna", "annabel", "Anna", "ann", "nna", "zoe", "anna zoe"}
	queries := append([]string{"", "a", "nobody", "anna ", " anna", "annab", "ANNA", "*", "ann?", "..", "anna\x00"}, nicks...)
	var many []zkidentity.PublicIdentity
	for _, n := range nicks {
		many = append(many, pubid(n, n).Public)
	}
	for mask := 0; mask < 1<<uint(len(nicks)); mask++ {
		if !c.Mine(mask) {
			continue
		}
		fresh()
		ok := c.Try("search", mask, func() {
			a, _ := account.New(aroot)
			for i := range nicks {
				if err := a.Create(many[i], false); err != nil {
					mc.Fail("create %q: %v", nicks[i], err)
				}
				if mask>>uint(i)&1 == 1 {
					if err := a.Push(many[i].Identity); err != nil {
						mc.Fail("list %q: %v", nicks[i], err)
					}
				}
			}
			for _, q := range queries {
				pid, err := a.Find(q)
				want := -1
				for i := range nicks {
					if nicks[i] == q && mask>>uint(i)&1 == 1 {
						want = i
					}
				}
				if want < 0 && err == nil {
					mc.Fail("search for %q found %q (listed set %b of %q)", q, pid.Nick, mask, nicks)
				}
				if want >= 0 && (err != nil || fmt.Sprint(*pid) != fmt.Sprint(many[want])) {
					mc.Fail("search for listed %q: %v %v (listed set %b of %q)", q, pid, err, mask, nicks)
				}
				c.Eval(fmt.Sprintf("search hit=%v", want >= 0))
			}
			c.R.States++
		})
		if !ok {
			return
		}
	}
	// two identities race for one nick and for one account
	c.Scenario(&mc.Scenario{Name: "create-same-identity", Bound: pb, Setup: func() { fresh() }, Body: func(x *mc.X) {
		a, _ := account.New(aroot)
		var errs [2]error
		for i := 0; i < 2; i++ {
			i := i
			mc.GoNamed(fmt.Sprintf("create%d", i), func() {
				errs[i] = a.Create(ids[0], false)
				mc.Touch("model", true)
			})
		}
		mc.Quiesce()
		if (errs[0] == nil) == (errs[1] == nil) {
			mc.Fail("two concurrent creations of one account: %v and %v", errs[0], errs[1])
		}
		x.Outcome("%v", errs[0] == nil)
		if err := a.Push(ids[0].Identity); err != nil {
			mc.Fail("list: %v", err)
		}
		if pid, err := a.Find("anna"); err != nil || fmt.Sprint(*pid) != fmt.Sprint(ids[0]) {
			mc.Fail("find: %v", err)
		}
		if _, err := a.Deliver(ids[0].Identity, bob, []byte("x"), false); err != nil {
			mc.Fail("deliver: %v", err)
		}
	}})
}

func init() {
	mc.Register(&mc.Check{ID: "A02", Level: "fault_enumeration", Run: checkA02,
		Rule: "every mailbox history up to the depth x every crash point, torn write, loss of unsynced data and failing file system call of its last operation; distinct = (mailbox before, operation, survived)",
		Assumptions: []string{"metadata operations reach the disk in order", "unsynced file content may be lost, kept or halved by a power loss"}})
	mc.Register(&mc.Check{ID: "A03", Level: "model_checking", Run: checkA03,
		Rule: "breadth first search over the account model; each transition is executed on the real code and each of its crash points is recovered and compared with the model before or after"})
	mc.Register(&mc.Check{ID: "A04", Level: "model_checking", Run: checkA04,
		Rule: "every interleaving of directory searches with account changes up to the deviation bound"})
}
