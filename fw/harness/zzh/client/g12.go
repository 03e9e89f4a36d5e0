//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	"github.com/companyzero/zkc/zz/ttk"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vtls"
	xdr "github.com/davecgh/go-xdr/xdr2"
	"github.com/nsf/termbox-go"
)

func init() {
	mc.Register(&mc.Check{ID: "G12", Level: "model_checking", Run: checkG12, Assumptions: []string{noCrypto, noTerm,
		"the server is a model of the account creation protocol (B05 and B06 check the real one)"}})
}

// host is a server that accounts can be created on.
type host struct {
	name  string
	id    *zkidentity.FullIdentity
	cert  []byte
	accts map[[32]byte]string // identity to nick
	token string              // that is required, if any
}

// newbie is a user who runs the client for the first time.
type newbie struct {
	fs    *vfs.FS
	hosts map[string]*host
	c     *cli
	conns []*visit
	fault string // of the next connection
	busy  bool   // the user interface
	ended bool
	fake  *zkidentity.FullIdentity // only for the name of the directory

	yes    map[string]bool // connections the user has said yes to
	typed  [4]string       // name, nick, server, token
	made   map[string]bool // host and nick of the accounts that exist
	told   *account12      // the account the client was told it has
	online *visit
	began  bool // a session
}

type account12 struct {
	h    *host
	id   [32]byte
	cert []byte // of the server the user accepted
	pid  zkidentity.PublicIdentity
}

// visit is a connection of the client.
type visit struct {
	h      *host
	sv, cl *mcnet.Conn
	cert   []byte
	pid    zkidentity.PublicIdentity
	fault  string
	asked  bool // the identity was sent
	yes    bool // the user has accepted it
	kx     *fakesession.KX
	cmds   int
	typed  [4]string
}

var hostOne, hostTwo, newbID *zkidentity.FullIdentity

func newNewbie() *newbie {
	n := &newbie{hosts: map[string]*host{
		"one.srv:1": {"one.srv:1", hostOne, []byte("certificate one"), map[[32]byte]string{}, ""},
		"two.srv:1": {"two.srv:1", hostTwo, []byte("certificate two"), map[[32]byte]string{}, "1234567890"},
	}, made: map[string]bool{}, fake: newbID}
	for _, h := range n.hosts {
		h.accts[bobID.Public.Identity] = "bob"
	}
	vtls.Dial = n.dial
	n.run()
	return n
}

func (n *newbie) dial(addr string) (net.Conn, []byte, error) {
	h := n.hosts[addr]
	f := n.fault
	n.fault = ""
	if h == nil || f == "refuse" {
		return nil, nil, errors.New("connection refused")
	}
	cl, sv := mcnet.Pair(fmt.Sprintf("newb%d", len(n.conns)), "srv", 0)
	cl.UseDeadlines = true
	v := &visit{h: h, sv: sv, cl: cl, cert: h.cert, pid: h.id.Public, fault: f, typed: n.typed}
	if n.told != nil && n.told.h == h {
		v.cert, v.pid = n.told.cert, n.told.pid
	}
	switch f {
	case "other certificate":
		v.cert = append([]byte("another "), v.cert...)
	case "other identity":
		if v.pid = carolID.Public; n.told != nil && n.told.pid == v.pid {
			v.pid = daveID.Public
		}
	case "bad identity":
		v.pid.Name += "x"
	}
	n.conns = append(n.conns, v)
	if f == "close at once" {
		sv.Close()
	}
	return cl, v.cert, nil
}

// run starts the client.
func (n *newbie) run() {
	n.busy, n.ended, n.online = false, false, nil
	n.c = start(n.fake)
	n.pump()
}

// pump lets the servers answer until nothing moves.
func (n *newbie) pump() {
	for moved := true; moved; {
		moved = false
		mc.Quiesce()
		for _, v := range n.conns {
			if v.sv.Pending() > 0 && !v.sv.IsClosed() && v.fault != "silent" {
				n.serve(v)
				moved = true
			}
		}
	}
	if n.c.done && !n.ended {
		mc.Fail("the client ended: %v", n.c.err)
	}
}

// serve handles what a client sends.
func (n *newbie) serve(v *visit) {
	bad := func(f string, a ...interface{}) {
		mc.Fail("to %s: %s", v.h.name, fmt.Sprintf(f, a...))
	}
	v.cmds++
	if v.kx != nil {
		if v.sv.Pending() == 0 {
			return
		}
		b, err := v.kx.Read()
		if err != nil {
			bad("garbage in the session: %v", err)
		}
		var m rpc.Message
		if _, err := xdr.Unmarshal(bytes.NewReader(b), &m); err != nil {
			bad("garbage in the session: %v", err)
		}
		if m.Command == rpc.TaggedCmdIdentityFind {
			v.kx.Write(xenc(rpc.Message{Command: rpc.TaggedCmdIdentityFindReply, Tag: m.Tag}, rpc.IdentityFindReply{Nick: "nobody", Error: fmt.Sprintf("not found %d.", v.cmds)}))
		}
		return
	}
	var cmd string
	if _, err := xdr.Unmarshal(io.LimitReader(v.sv, 20), &cmd); err != nil {
		bad("garbage: %v", err)
	}
	switch cmd {
	case rpc.InitialCmdIdentify:
		if v.fault == "close instead of identity" {
			v.sv.Close()
			return
		}
		if v.fault == "garbage" {
			v.sv.Write(bytes.Repeat([]byte{0x7f}, 64))
			return
		}
		b := xenc(v.pid)
		if v.fault == "half an identity" {
			v.sv.Write(b[:len(b)/2])
			v.sv.Close()
			return
		}
		v.asked = true
		v.sv.Write(b)
		if v.fault == "close after identity" {
			mc.Quiesce()
			v.sv.Close()
		}
	case rpc.InitialCmdCreateAccount:
		var ca rpc.CreateAccount
		if _, err := xdr.UnmarshalLimited(v.sv, &ca, 1<<20); err != nil {
			bad("garbage instead of an account: %v", err)
		}
		for _, o := range n.conns {
			// the server the account is on need not be accepted again
			if o != v && o.yes && n.told != nil && o.h == n.told.h && v.h == o.h && bytes.Equal(o.cert, v.cert) {
				v.asked, v.yes = true, true
			}
		}
		if !v.asked || !v.yes {
			bad("account data sent to a server the user has not accepted")
		}
		pid := ca.PublicIdentity
		if !pid.Verify() {
			bad("invalid identity")
		}
		if pid.Name != v.typed[0] || pid.Nick != v.typed[1] || ca.Token != strings.Replace(v.typed[3], " ", "", -1) {
			bad("name %q nick %q token %q instead of %q", pid.Name, pid.Nick, ca.Token, v.typed)
		}
		if v.fault == "close instead of account" {
			v.sv.Close()
			return
		}
		e := ""
		if ca.Token != v.h.token {
			e = "invalid token"
		}
		if _, ok := v.h.accts[pid.Identity]; ok {
			e = "account exists"
		}
		for _, x := range v.h.accts {
			if x == pid.Nick {
				e = "nick not available"
			}
		}
		if v.fault == "account refused" {
			e = "no new accounts"
		}
		if e == "" {
			v.h.accts[pid.Identity] = pid.Nick
			n.made[v.h.name+" "+pid.Nick] = true
		}
		if v.fault == "close instead of reply" {
			v.sv.Close()
			return
		}
		v.sv.Write(xenc(rpc.CreateAccountReply{Error: e}))
		if e != "" {
			v.sv.Close()
			return
		}
		n.told = &account12{v.h, pid.Identity, v.cert, v.pid}
		if v.fault == "close after reply" {
			mc.Quiesce()
			v.sv.Close()
		}
	case rpc.InitialCmdSession:
		n.began = true
		if v.fault == "no session" {
			v.sv.Close()
			return
		}
		if n.told == nil || n.told.h != v.h {
			bad("session without an account")
		}
		if !bytes.Equal(v.cert, n.told.cert) {
			bad("session in spite of another certificate")
		}
		key := &v.pid.Key
		v.kx = &fakesession.KX{Conn: v.sv, MaxMessageSize: 1048576, OurPublicKey: key}
		if err := v.kx.Respond(); err != nil {
			bad("session not possible: %v", err)
		}
		if id, ok := v.kx.TheirIdentity().([32]byte); !ok || id != n.told.id {
			bad("session as somebody else")
		}
		if v.fault == "no welcome" {
			v.sv.Close()
			return
		}
		v.kx.Write(welcome(props(true)))
		if mc.Quiesce(); !v.sv.PeerClosed() {
			n.online = v
			if v.pid != n.told.pid {
				bad("session with another identity")
			}
		}
	default:
		bad("unknown command %q", cmd)
	}
}

// press is something the user does in a window, which blocks the others.
func (n *newbie) press(typ string, f func(w *ttk.Window)) {
	if n.ended || n.focus() != typ {
		return
	}
	if n.busy {
		mc.Fail("the user interface does not respond")
	}
	w := n.window(typ)
	n.busy = true
	n.c.do(func() {
		f(w)
		n.busy = false
	})
	n.pump()
	if n.busy {
		mc.Advance(int64(3 * time.Minute))
		n.pump()
		if n.busy {
			mc.Fail("the user interface does not respond when the server is silent")
		}
	}
}

// window returns the newest window of a type.
func (n *newbie) window(typ string) *ttk.Window {
	var w *ttk.Window
	for _, x := range ttk.All[n.c.from:] {
		if x.Type() == "*zkclient."+typ {
			w = x
		}
	}
	if w == nil {
		mc.Fail("there is no %s", typ)
	}
	return w
}

// focus is the type of the window the user sees.
func (n *newbie) focus() string {
	w := ttk.Focused()
	if w == nil {
		return ""
	}
	return strings.TrimPrefix(w.Type(), "*zkclient.")
}

// create fills in the first window.
func (n *newbie) create(name, nick, server, token string) {
	n.press("welcomeWindow", func(w *ttk.Window) {
		n.typed = [4]string{name, nick, server, token}
		for i, s := range n.typed {
			w.Fill(i, s)
		}
		w.Enter(3)
	})
}

// answer is what the user says to a server's fingerprint.
func (n *newbie) answer(s string) {
	if n.ended || n.focus() != "acceptWindow" {
		return
	}
	w := n.window("acceptWindow")
	if len(n.conns) == 0 {
		mc.Fail("a question without a connection")
	}
	v := n.conns[len(n.conns)-1]
	shown := strings.Join(w.Labels(), "\n")
	for _, x := range []string{tools.Fingerprint(v.cert), v.pid.Fingerprint(), v.h.name, v.pid.Name} {
		if !strings.Contains(shown, x) {
			mc.Fail("the user is not shown %s but %q", x, shown)
		}
	}
	if !v.pid.Verify() {
		mc.Fail("the user is asked about an invalid identity")
	}
	if strings.ToLower(s) == "yes" {
		v.yes = true
	}
	was := len(v.h.accts)
	n.press("acceptWindow", func(w *ttk.Window) {
		w.Fill(0, s)
		w.Enter(0)
	})
	if v.fault == "" && len(v.h.accts) > was && n.online != v {
		mc.Fail("account created but the client does not go online: %q", n.labels())
	}
}

// again ends the client and starts it once more.
func (n *newbie) again() {
	if !n.busy {
		n.ended = true
		ttk.Press(termbox.KeyCtrlQ)
		mc.Quiesce()
		if !n.c.done {
			mc.Fail("the client does not quit")
		}
	}
	n.c.kill()
	for _, v := range n.conns {
		v.cl.Close()
		v.sv.Close()
	}
	n.fault = ""
	n.run()
}

// final demands that the user ends up with an account that works.
func (n *newbie) final() string {
	class := "at once"
	n.fault = ""
	if n.online == nil || n.online.sv.PeerClosed() || n.online.sv.IsClosed() {
		n.again()
		class = "after restart"
	}
	if n.told == nil {
		class = "fresh"
		if n.focus() != "welcomeWindow" {
			mc.Fail("no account but the user sees %s", n.focus())
		}
		for i := 0; i < 2 && n.told == nil; i++ {
			n.create("new name", fmt.Sprintf("fresh%d", i), "one.srv:1", "")
			n.answer("yes")
		}
		if n.told == nil {
			mc.Fail("no account can be created: %q", n.labels())
		}
	}
	for i := 0; i < 2; i++ {
		if n.focus() != "mainWindow" {
			mc.Fail("account exists but the user sees %s: %q", n.focus(), n.labels())
		}
		v := n.online
		if v == nil || v.sv.PeerClosed() {
			mc.Fail("account exists but the client is not online: %s", n.c.tail())
		}
		if v.h != n.told.h || v.kx == nil {
			mc.Fail("online elsewhere")
		}
		k := v.cmds
		n.c.cmd("/find nobody")
		n.pump()
		if v.cmds != k+1 || n.c.shown(fmt.Sprintf("not found %d.", v.cmds)) != 1 {
			mc.Fail("no answer: %s", n.c.tail())
		}
		n.again()
	}
	// nothing but this server is trusted
	for _, f := range []string{"other certificate", "other identity"} {
		n.c.kill()
		for _, v := range n.conns {
			v.cl.Close()
			v.sv.Close()
		}
		n.fault = f
		n.run()
		if n.online != nil {
			mc.Fail("the client goes online with %s", f)
		}
	}
	return class
}

func (n *newbie) labels() []string {
	w := ttk.Focused()
	if w == nil {
		return nil
	}
	return w.Labels()
}

var faults12 = []string{"refuse", "close at once", "other certificate", "other identity", "bad identity", "garbage", "half an identity",
	"silent", "close instead of identity", "close after identity", "close instead of account", "account refused", "close instead of reply", "close after reply",
	"no session", "no welcome"}

func checkG12(c *mc.Ctx) {
	world()
	if hostOne == nil {
		hostOne, hostTwo, newbID = newID("one"), newID("two"), newID("newb")
	}
	r := root("newb")
	fs := vfs.New()
	fs.PutDir(r)
	fs.Put(r+"/zkclient.conf", []byte("root = "+r+"\nbeep = no\n[log]\nsavehistory = no\nlogfile = "+r+"/zkclient.log\ndebug = no\n"))
	var evs []ev[*newbie]
	add := func(name string, f func(n *newbie)) { evs = append(evs, ev[*newbie]{name, f}) }
	add("create", func(n *newbie) { n.create("new name", "newb", "one.srv:1", "") })
	add("create elsewhere", func(n *newbie) { n.create("new name", "newb", "two.srv:1", "1234 567890") })
	add("taken nick", func(n *newbie) { n.create("new name", "bob", "one.srv:1", "") })
	add("wrong token", func(n *newbie) { n.create("new name", "newb", "two.srv:1", "99") })
	add("create another", func(n *newbie) { n.create("other name", "newc", "one.srv:1", "") })
	add("no server", func(n *newbie) { n.create("new name", "newb", "nowhere:1", "") })
	add("no nick", func(n *newbie) { n.create("new name", "", "one.srv:1", "") })
	add("yes", func(n *newbie) { n.answer("yes") })
	add("no", func(n *newbie) { n.answer("no") })
	add("Yes", func(n *newbie) { n.answer("YES") })
	add("nothing", func(n *newbie) { n.answer("") })
	add("restart", func(n *newbie) { n.again() })
	for _, f := range faults12 {
		f := f
		add("fault "+f, func(n *newbie) { n.fault = f })
	}
	for d := 1; d <= c.Pick(3, 4); d++ {
		histories(c, fmt.Sprintf("history of length %d", d), fs, evs, d, newNewbie, func(n *newbie) string { return n.final() })
	}
	// longer ones about one attempt with a fault and another one
	var nice []ev[*newbie]
	for _, e := range evs {
		switch e.name {
		case "create", "create another", "create elsewhere", "yes", "no", "restart":
			nice = append(nice, e)
		}
	}
	i := 0
	for _, f := range faults12 {
		for _, srv := range []string{"create", "create elsewhere"} {
			m := 1
			for k := 0; k < c.Pick(3, 4); k++ {
				m *= len(nice)
			}
			for x := 0; x < m; x++ {
				i++
				if !c.Mine(i) || c.Expired() {
					continue
				}
				var s []int
				for k, y := 0, x; k < c.Pick(3, 4); k++ {
					s = append(s, y%len(nice))
					y /= len(nice)
				}
				all := []ev[*newbie]{{"fault " + f, func(n *newbie) { n.fault = f }}}
				for _, e := range evs {
					if e.name == srv || e.name == "yes" {
						all = append(all, e)
					}
				}
				for _, k := range s {
					all = append(all, nice[k])
				}
				var idx []int
				var names []string
				for k := range all {
					idx = append(idx, k)
					names = append(names, all[k].name)
				}
				history(c, "attempt with fault", fs, all, idx, names, newNewbie, func(n *newbie) string { return n.final() })
				c.R.States++
				c.R.Traces++
				c.R.Transitions += len(all)
			}
		}
	}
	crash12(c, fs)
	if c.Expired() {
		c.Incomplete("deadline")
	}
}

// crash12 lets the client die before, after and within every change of its
// files, and every file operation fail, while an account is created.
func crash12(c *mc.Ctx, fs *vfs.FS) {
	type hit struct {
		at, torn int
		fail     bool
		loss     int
	}
	one := func(h hit) (reached bool, losses int) {
		setupOn(fs)()
		class, where, op := "", "start", ""
		if f := mc.RunOnce(func() {
			n := newNewbie()
			k := 0
			r := root("newb")
			mine := func(p string) bool { return strings.HasPrefix(p, r+"/") && !strings.HasSuffix(p, ".log") }
			armed := ""
			if h.fail {
				vfs.Cur.Fault = func(o, p string) error {
					if !mine(p) || reached {
						return nil
					}
					if k++; k == h.at {
						reached = true
						op = o + " " + p
						return errors.New("disk failure")
					}
					return nil
				}
			} else {
				vfs.Cur.OnMut = func(o, p string) {
					if !mine(p) || reached {
						return
					}
					if k++; k != h.at {
						return
					}
					op = o + " " + p
					if h.torn == 0 {
						reached = true
						mc.Die()
					}
					armed = p
				}
				vfs.Cur.Torn = func(p string, size int) int {
					if armed == "" || p != armed || reached {
						return -1
					}
					reached = true
					return size * h.torn / 4
				}
			}
			where = "create"
			n.create("new name", "newb", "one.srv:1", "")
			if !reached || h.fail {
				where = "yes"
				n.crash(h.fail, "yes")
			}
			vfs.Cur.Fault, vfs.Cur.OnMut, vfs.Cur.Torn = nil, nil, nil
			if !reached {
				return
			}
			where = "restart"
			if !h.fail {
				n.c.kill()
				for _, v := range n.conns {
					v.cl.Close()
					v.sv.Close()
				}
				ls := vfs.Cur.Losses(r)
				losses = len(ls)
				if h.loss > 0 && h.loss < len(ls) {
					q := vfs.Cur.Quiet
					vfs.Cur = ls[h.loss].FS
					vfs.Cur.Quiet = q
				}
				began := n.began
				n.run()
				if n.focus() == "welcomeWindow" && !began {
					n.told = nil // not written down yet
				}
			} else if n.told != nil && n.online == nil {
				began := n.began
				n.again()
				if n.focus() == "welcomeWindow" && !began {
					n.told = nil // could not be written down
				}
			}
			where = "end"
			class = n.final()
		}); f != "" {
			first := strings.SplitN(f, "\n", 2)[0]
			c.Violate("disk:"+where+":"+strip(first), fmt.Sprintf("%+v %s", h, op), "%+v at %s, %s: %s", h, op, where, first)
			class = "bad"
		}
		vfs.Cur.Fault, vfs.Cur.OnMut, vfs.Cur.Torn = nil, nil, nil
		if reached {
			c.R.States++
			c.R.Traces++
			c.Eval(fmt.Sprintf("disk fail=%v torn=%v %s", h.fail, h.torn > 0, class))
		}
		return
	}
	for _, fail := range []bool{false, true} {
		for at := 1; at < 500 && !c.Expired(); at++ {
			if !c.Mine(at) {
				continue
			}
			ok, losses := one(hit{at: at, fail: fail})
			if !ok {
				break
			}
			if fail {
				continue
			}
			for l := 1; l < losses; l++ {
				one(hit{at: at, loss: l})
			}
			for t := 1; t <= 3; t++ {
				one(hit{at: at, torn: t})
			}
		}
	}
}

// crash says yes although the client may die meanwhile.
func (n *newbie) crash(fail bool, s string) {
	if n.focus() != "acceptWindow" {
		return
	}
	v := n.conns[len(n.conns)-1]
	v.yes = true
	w := n.window("acceptWindow")
	n.c.do(func() {
		w.Fill(0, s)
		w.Enter(0)
	})
	n.pump()
}
