//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkserver/settings"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vtime"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func main() { mc.Main() }

const (
	sroot = "/srv/zk"
	users = "/srv/zk/home"
)

var (
	srvID                   *zkidentity.FullIdentity
	aliceID, bobID, carolID *zkidentity.FullIdentity
	baseFS                  *vfs.FS // alice, bob and carol have accounts
)

func newID(nick string) *zkidentity.FullIdentity {
	id, err := zkidentity.New(nick+" name", nick)
	if err != nil {
		panic(err)
	}
	return id
}

func mkSettings() *settings.Settings {
	s := settings.New()
	s.Root = sroot
	s.Users = users
	s.MOTD = sroot + "/motd.txt"
	s.LogFile = "/srv/zk/log"
	return s
}

// world prepares identities and the disk of a server with three accounts.
func world() {
	if srvID != nil {
		return
	}
	vtime.Hook = nil
	vrand.Hook = nil
	srvID, aliceID, bobID, carolID = newID("zkserver"), newID("alice"), newID("bob"), newID("carol")
	fs := vfs.Reset()
	fs.PutDir(users)
	a, err := account.New(users)
	if err != nil {
		panic(err)
	}
	for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
		if err := a.Create(i.Public, false); err != nil {
			panic(err)
		}
	}
	fs.Put(sroot+"/motd.txt", []byte("hello"))
	baseFS = fs
}

// setup installs a fresh copy of the world's disk.
func setup() {
	vtime.Hook = nil
	vrand.Hook = nil
	mc.MapDesc = false
	vfs.Cur = baseFS.Clone()
	mc.CalmStart = true
	vfs.Cur.Quiet = []string{sroot + "/motd.txt"}
}

type srv struct {
	sim   *zkserver.Sim
	set   *settings.Settings
	n     int
	conns []*mcnet.Conn // server ends
}

// boot starts a server process on the current disk.
func boot(set *settings.Settings) *srv {
	if set == nil {
		set = mkSettings()
	}
	sim, err := zkserver.Start(srvID, set)
	if err != nil {
		mc.Fail("server does not start: %v", err)
	}
	return &srv{sim: sim, set: set}
}

// conn is a client's end of a connection to the server.
type conn struct {
	s    *srv
	id   *zkidentity.FullIdentity
	c    *mcnet.Conn
	kx   *fakesession.KX
	name string
	got  []rmsg // messages read so far
	run  func()
}

type rmsg struct {
	m    rpc.Message
	body []byte
}

// dial opens a connection; cap limits the bytes in flight to the client.
func (s *srv) dial(id *zkidentity.FullIdentity, cap int) *conn {
	s.n++
	name := fmt.Sprintf("c%d", s.n)
	if id != nil {
		name += id.Public.Nick
	}
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	sv.SetCap(cap)
	s.conns = append(s.conns, sv)
	mc.Go("server:"+name, func() { s.sim.Client(sv) })
	return &conn{s: s, id: id, c: cl, name: name}
}

// prep prepares a connection on which a login and further messages are
// already on their way; go starts the server's side.
func (s *srv) prep(id *zkidentity.FullIdentity, msgs ...[]byte) *conn {
	s.n++
	name := fmt.Sprintf("c%d%s", s.n, id.Public.Nick)
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	s.conns = append(s.conns, sv)
	c := &conn{s: s, id: id, c: cl, name: name}
	c.put(rpc.InitialCmdSession)
	c.kx = &fakesession.KX{Conn: cl, MaxMessageSize: uint(s.set.MaxMsgSize), TheirPublicKey: &srvID.Public.Key}
	c.kx.Write(id.Public.Key[:])
	for _, m := range msgs {
		c.kx.Write(m)
	}
	c.run = func() {
		mc.Go("server:"+name, func() { s.sim.Client(sv) })
	}
	return c
}

// prepAdmin prepares an administration connection with a request.
func (s *srv) prepAdmin(cmd, identity string) *conn {
	s.n++
	name := fmt.Sprintf("adm%d", s.n)
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	c := &conn{s: s, c: cl, name: name}
	c.request(cmd, identity)
	c.run = func() { mc.Go("admin:"+name, func() { s.sim.Admin(sv) }) }
	return c
}

// join reads what a prepared connection received up to the welcome message.
func (c *conn) join() error {
	if c.c.Pending() == 0 {
		return io.EOF
	}
	if _, err := c.kx.Read(); err != nil {
		return err
	}
	if c.c.Pending() == 0 {
		return io.EOF
	}
	m, err := c.recv()
	if err != nil {
		return err
	}
	if m.m.Command == rpc.SessionCmdUnwelcome {
		return errUnwelcome
	}
	return nil
}

// race lets the prepared connections and functions run against each other in
// every schedule within the bound and waits until nothing moves any more.
// Everything outside of a race follows the default schedule.
func race(what ...interface{}) {
	for _, w := range what {
		switch v := w.(type) {
		case *conn:
			v.run()
		case func():
			mc.Go("race", v)
		}
	}
	mc.Calm(false)
	mc.Quiesce()
	mc.Calm(true)
	for _, w := range what {
		if v, ok := w.(*conn); ok && v.kx != nil {
			_ = v.join()
		}
	}
}

// admin opens a connection to the administration socket.
func (s *srv) admin() *conn {
	s.n++
	name := fmt.Sprintf("adm%d", s.n)
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	mc.Go("admin:"+name, func() { s.sim.Admin(sv) })
	return &conn{s: s, c: cl, name: name}
}

var errUnwelcome = errors.New("unwelcome")

func (c *conn) put(v interface{}) error {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, v); err != nil {
		panic(err)
	}
	_, err := c.c.Write(b.Bytes())
	return err
}

// start does the key exchange.
func (c *conn) start() error {
	if err := c.put(rpc.InitialCmdSession); err != nil {
		return err
	}
	c.kx = &fakesession.KX{Conn: c.c, MaxMessageSize: uint(c.s.set.MaxMsgSize), OurPrivateKey: &c.id.PrivateKey,
		OurPublicKey: &c.id.Public.Key, TheirPublicKey: &srvID.Public.Key}
	return c.kx.Initiate()
}

// login opens a session up to the welcome message.
func (c *conn) login() error {
	if err := c.start(); err != nil {
		return err
	}
	m, err := c.recv()
	if err != nil {
		return err
	}
	if m.m.Command == rpc.SessionCmdUnwelcome {
		return errUnwelcome
	}
	if m.m.Command != rpc.SessionCmdWelcome {
		return fmt.Errorf("got %v instead of a welcome", m.m.Command)
	}
	return nil
}

func enc(cmd string, tag uint32, payload interface{}) []byte {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, rpc.Message{Command: cmd, Tag: tag}); err != nil {
		panic(err)
	}
	if payload != nil {
		if _, err := xdr.Marshal(&b, payload); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

func (c *conn) send(cmd string, tag uint32, payload interface{}) error {
	return c.kx.Write(enc(cmd, tag, payload))
}

func (c *conn) recv() (rmsg, error) {
	b, err := c.kx.Read()
	if err != nil {
		return rmsg{}, err
	}
	r := rmsg{}
	br := bytes.NewReader(b)
	if _, err := xdr.Unmarshal(br, &r.m); err != nil {
		mc.Fail("server sent garbage: %v", err)
	}
	r.body = b[len(b)-br.Len():]
	c.got = append(c.got, r)
	return r, nil
}

// poll reads everything that has arrived.
func (c *conn) poll() (out []rmsg) {
	mc.Quiesce()
	for c.c.Pending() > 0 {
		m, err := c.recv()
		if err != nil {
			return
		}
		out = append(out, m)
		if c.c.Pending() == 0 {
			mc.Quiesce()
		}
	}
	return
}

// dead tells whether the server gave up this connection.
func (c *conn) dead() bool { return c.c.PeerClosed() }

func (r rmsg) into(v interface{}) {
	if _, err := xdr.Unmarshal(bytes.NewReader(r.body), v); err != nil {
		mc.Fail("cannot decode %v: %v", r.m.Command, err)
	}
}

const pingTag = 29

// alive reports whether the session still answers; everything else that
// arrives is returned.
func (c *conn) alive() (ok bool, others []rmsg) {
	others = c.poll()
	if c.dead() || c.send(rpc.TaggedCmdPing, pingTag, rpc.Ping{}) != nil {
		return false, others
	}
	for _, m := range c.poll() {
		if m.m.Command == rpc.TaggedCmdPong && m.m.Tag == pingTag {
			ok = true
			continue
		}
		others = append(others, m)
	}
	return
}

func (c *conn) close() { c.c.Close() }

// sessions logs in and pings; it returns the live connection or nil.
func (s *srv) attempt(id *zkidentity.FullIdentity) *conn {
	c := s.dial(id, 0)
	if err := c.login(); err != nil {
		c.close()
		mc.Quiesce()
		return nil
	}
	if ok, _ := c.alive(); ok {
		return c
	}
	if !c.dead() {
		mc.Fail("%s: session hangs: %v", c.name, mc.Blocked())
	}
	c.close()
	mc.Quiesce()
	return nil
}

// mustLogin demands a live session within n attempts.
func (s *srv) mustLogin(id *zkidentity.FullIdentity, n int, what string) *conn {
	for i := 0; i < n; i++ {
		if c := s.attempt(id); c != nil {
			return c
		}
	}
	mc.Fail("%s cannot log in %s (%d attempts): %v", id.Public.Nick, what, n, mc.Blocked())
	return nil
}

// atRest demands that every connection ended without leaving anything behind.
func (s *srv) atRest(cs ...*conn) {
	for _, c := range cs {
		if c != nil {
			c.close()
		}
	}
	mc.Quiesce()
	if b := mc.Blocked(); len(b) > 0 {
		mc.Fail("sessions ended but left behind: %s", strings.Join(b, "; "))
	}
	if n := vfs.Cur.Open; n > 0 {
		mc.Fail("sessions ended but left %d files open", n)
	}
}

type adminReply struct {
	Error string `json:"error"`
}

// adminDo sends one administration command; ok is false without an answer.
func (c *conn) adminDo(cmd, identity string) (rep adminReply, ok bool) {
	if err := c.request(cmd, identity); err != nil {
		return rep, false
	}
	return c.adminReply()
}

func (c *conn) request(cmd, identity string) error {
	b, _ := json.Marshal(socketapi.SocketCommandID{Version: socketapi.SCVersion, Command: cmd})
	i, _ := json.Marshal(socketapi.SocketCommandUserDisable{Identity: identity})
	_, err := c.c.Write(append(append(append(b, '\n'), i...), '\n'))
	return err
}

func (c *conn) adminReply() (rep adminReply, ok bool) {
	ok = json.NewDecoder(c.c).Decode(&rep) == nil
	return
}

func hexID(id *zkidentity.FullIdentity) string { return fmt.Sprintf("%x", id.Public.Identity[:]) }

// seqs enumerates every sequence of length 1..depth over n operations.
func seqs(c *mc.Ctx, n, depth int, f func(s []int) bool) {
	i := 0
	for d := 1; d <= depth; d++ {
		s := make([]int, d)
		for {
			if c.Mine(i) && !f(append([]int(nil), s...)) {
				return
			}
			i++
			k := d - 1
			for k >= 0 {
				s[k]++
				if s[k] < n {
					break
				}
				s[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
		if c.Expired() {
			return
		}
	}
}

func sorted(m map[string]int) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%s*%d", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

const second = int64(time.Second)

var pubs = map[string]*zkidentity.FullIdentity{}

// newFull returns a full identity for nick, always the same.
func newFull(nick string) *zkidentity.FullIdentity {
	if pubs[nick] == nil {
		h := vtime.Hook
		vtime.Hook = nil
		pubs[nick] = newID(nick)
		vtime.Hook = h
	}
	return pubs[nick]
}

func newPub(nick string) zkidentity.PublicIdentity { return newFull(nick).Public }

// dialPaused prepares a connection without a login for race.
func (s *srv) dialPaused() *conn {
	s.n++
	name := fmt.Sprintf("c%d", s.n)
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	c := &conn{s: s, c: cl, name: name}
	c.run = func() { mc.Go("server:"+name, func() { s.sim.Client(sv) }) }
	return c
}
