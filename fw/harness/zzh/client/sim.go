//go:build go1.22

package main

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	realos "os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkclient"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	"github.com/companyzero/zkc/zz/ttk"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vscrypt"
	"github.com/companyzero/zkc/zz/vsntrup"
	"github.com/companyzero/zkc/zz/vtime"
	"github.com/companyzero/zkc/zz/vtls"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func main() {
	realos.Setenv("HOME", "/root")
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(1 << 30)
	vsntrup.Fast = true
	vscrypt.Fast = true
	mc.Main()
}

var (
	srvID                                   *zkidentity.FullIdentity
	aliceID, bobID, carolID, daveID, bob2ID, annID *zkidentity.FullIdentity
	baseFS                                  *vfs.FS // alice knows bob and carol
	freshFS                                 *vfs.FS // alice, bob and carol know nobody
	basePeers                               = map[string][]byte{}
	srvCert                                 = []byte("certificate")
)

func newID(nick string) *zkidentity.FullIdentity {
	id, err := zkidentity.New(nick+" name", nick)
	if err != nil {
		panic(err)
	}
	return id
}

func xenc(v ...interface{}) []byte {
	var b bytes.Buffer
	for _, x := range v {
		if _, err := xdr.Marshal(&b, x); err != nil {
			panic(err)
		}
	}
	return b.Bytes()
}

func root(nick string) string { return "/c/" + nick }

func hexID(id *zkidentity.FullIdentity) string { return hex.EncodeToString(id.Public.Identity[:]) }

func inbound(nick string, id *zkidentity.FullIdentity) string {
	return root(nick) + "/inbound/" + hexID(id)
}

// account puts a client's configuration and account on disk.
func account(fs *vfs.FS, id *zkidentity.FullIdentity) {
	nick := id.Public.Nick
	r := root(nick)
	fs.PutDir(r)
	fs.Put(r+"/zkclient.conf", []byte("root = "+r+"\nbeep = no\n[log]\nsavehistory = no\nlogfile = "+r+"/zkclient.log\ndebug = no\n"))
	cur := vfs.Cur
	vfs.Cur = fs
	defer func() { vfs.Cur = cur }()
	db, err := inidb.New(r+"/"+tools.ZKCServerFilename, true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		panic(err)
	}
	b64 := base64.StdEncoding.EncodeToString
	for k, v := range map[string]string{"server": nick + ".srv:1", "serveridentity": b64(xenc(srvID.Public)),
		"servercert": b64(srvCert), "myidentity": b64(xenc(id))} {
		if err := db.Set("", k, v); err != nil {
			panic(err)
		}
	}
	if err := db.Save(); err != nil {
		panic(err)
	}
}

// kx performs a key exchange between two identities.
func kx(a, b *zkidentity.FullIdentity) (ra, rb *ratchet.Ratchet) {
	mk := func(me, you *zkidentity.FullIdentity) *ratchet.Ratchet {
		r := ratchet.New(vrand.Reader)
		r.MyPrivateKey = &me.PrivateKey
		r.MySigningPublic = &me.Public.SigKey
		r.TheirIdentityPublic = &you.Public.Identity
		r.TheirSigningPublic = &you.Public.SigKey
		r.TheirPublicKey = &you.Public.Key
		return r
	}
	ra, rb = mk(a, b), mk(b, a)
	var ka, kb ratchet.KeyExchange
	for _, err := range []error{ra.FillKeyExchange(&ka), rb.FillKeyExchange(&kb)} {
		if err != nil {
			panic(err)
		}
	}
	if err := ra.CompleteKeyExchange(&kb, true); err != nil {
		panic(err)
	}
	if err := rb.CompleteKeyExchange(&ka, false); err != nil {
		panic(err)
	}
	return
}

func rstate(r *ratchet.Ratchet) []byte {
	return xenc(*r.Marshal(time.Unix(1500000000, 0), 31*24*time.Hour))
}

// contact makes you a contact of the client me.
func contact(fs *vfs.FS, me, you *zkidentity.FullIdentity) {
	ra, rb := kx(me, you)
	dir := inbound(me.Public.Nick, you)
	fs.PutDir(dir)
	pid, err := you.Public.Marshal()
	if err != nil {
		panic(err)
	}
	fs.Put(dir+"/publicidentity.xdr", pid)
	fs.Put(dir+"/ratchet.xdr", rstate(ra))
	basePeers[me.Public.Nick+hexID(you)] = rstate(rb)
}

func world() {
	if srvID != nil {
		return
	}
	vtime.Hook = nil
	vrand.Hook = nil
	srvID, aliceID, bobID, carolID, daveID = newID("zkserver"), newID("alice"), newID("bob"), newID("carol"), newID("dave")
	bob2ID = newID("bob")
	annID = newID("ann lee")
	freshFS = vfs.New()
	for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
		account(freshFS, i)
	}
	baseFS = freshFS.Clone()
	for _, i := range []*zkidentity.FullIdentity{bobID, carolID, daveID} {
		contact(baseFS, aliceID, i)
	}
}

func setupOn(fs *vfs.FS) func() {
	return func() {
		vtime.Hook = nil
		vrand.Hook = nil
		vtime.MaxTicks = 3
		mc.TimersEnd = false
		mc.MapDesc = false
		vfs.Cur = fs.Clone()
		vfs.Cur.Quiet = nil
		for _, n := range []string{"alice", "bob", "carol"} {
			vfs.Cur.Quiet = append(vfs.Cur.Quiet, root(n)+"/logs")
		}
		mc.CalmStart = true
		ttk.Reset()
		procs = 0
		clients = map[string]*cli{}
		vtls.Dial = dialHook
	}
}

func setup() { setupOn(baseFS)() }

var clients map[string]*cli

// cli is one running client process.
type cli struct {
	id     *zkidentity.FullIdentity
	nick   string
	from   int // first window
	links  []*link
	accept func(sv net.Conn) // serves connections if set
	refuse bool
	dials  int
	cert   []byte
	done   bool
	err    error
	peers  map[string]*peer
	states map[string][]byte // of the peers' ratchets
	proc   string
}

var procs int

func dialHook(addr string) (net.Conn, []byte, error) {
	c := clients[strings.SplitN(addr, ".", 2)[0]]
	if c != nil {
		c.dials++
	}
	if c == nil || c.refuse {
		return nil, nil, errors.New("connection refused")
	}
	name := fmt.Sprintf("%s%d", c.nick, len(c.links))
	cl, sv := mcnet.Pair(name, name+"-srv", 0)
	l := &link{cli: c, c: sv, cl: cl}
	cl.UseDeadlines = true
	c.links = append(c.links, l)
	if c.accept != nil {
		c.accept(sv)
	}
	return cl, c.cert, nil
}

// start runs a client process on the current disk.
func start(id *zkidentity.FullIdentity) *cli { return startAs(id, nil) }

func startAs(id *zkidentity.FullIdentity, prepare func(*cli)) *cli {
	nick := id.Public.Nick
	c := &cli{id: id, nick: nick, from: len(ttk.All), peers: map[string]*peer{}, cert: srvCert}
	if prepare != nil {
		prepare(c)
	}
	clients[nick] = c
	procs++
	c.proc = fmt.Sprintf("%s/%d", nick, procs)
	mc.GoGroup(c.proc, "main:"+nick, func() {
		c.err = zkclient.Main(root(nick) + "/zkclient.conf")
		c.done = true
	})
	mc.Quiesce()
	if c.done {
		mc.Fail("client %s ended at once: %v", nick, c.err)
	}
	return c
}

func (c *cli) window(typ string) *ttk.Window {
	var w *ttk.Window
	for _, x := range ttk.All[c.from:] {
		if x.Type() == "*zkclient."+typ {
			w = x
			break
		}
	}
	if w == nil {
		mc.Fail("client %s has no %s", c.nick, typ)
	}
	return w
}

// cmd enters a command and waits until nothing moves any more.
func (c *cli) cmd(f string, a ...interface{}) {
	c.cmdNow(f, a...)
	mc.Quiesce()
}

func (c *cli) cmdNow(f string, a ...interface{}) { c.typed(fmt.Sprintf(f, a...)) }

// typed enters commands one after the other.
func (c *cli) typed(cmds ...string) {
	w := c.window("mainWindow")
	c.do(func() {
		for _, s := range cmds {
			w.Fill(0, s)
			w.Enter(0)
		}
	})
}

// do runs f in the client's process.
func (c *cli) do(f func()) {
	mc.GoGroup(c.proc, "user:"+c.nick, f)
}

// kill ends the client's process, wherever it is.
func (c *cli) kill() {
	mc.Kill(c.proc)
	for _, l := range c.links {
		l.cl.Close()
	}
	if clients[c.nick] == c {
		delete(clients, c.nick)
	}
}

// screen returns the lines of all conversations, console first.
func (c *cli) screen() [][]string {
	l := c.window("mainWindow").Lists()
	for _, x := range l {
		for i := range x {
			x[i] = plain(x[i])
		}
	}
	return l
}

// plain removes colours.
func plain(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// shown counts the lines of all windows that contain the text.
func (c *cli) shown(text string) (n int) {
	for _, l := range c.screen() {
		for _, s := range l {
			if strings.Contains(s, text) {
				n++
			}
		}
	}
	return
}

func (c *cli) console() string { return strings.Join(c.screen()[0], "\n") }

// link is the server's end of a client's connection.
type link struct {
	cli  *cli
	c    *mcnet.Conn
	cl   *mcnet.Conn
	kx   *fakesession.KX
	got  []rmsg
	rbuf []byte
	dir  bool
}

type rmsg struct {
	m    rpc.Message
	body []byte
	raw  []byte
}

func (r rmsg) into(v interface{}) {
	if _, err := xdr.Unmarshal(bytes.NewReader(r.body), v); err != nil {
		mc.Fail("cannot decode %v: %v", r.m.Command, err)
	}
}

func props(dir bool) []rpc.ServerProperty {
	return []rpc.ServerProperty{
		{Key: rpc.PropTagDepth, Value: "10", Required: true},
		{Key: rpc.PropMaxAttachmentSize, Value: "10485760", Required: true},
		{Key: rpc.PropMaxChunkSize, Value: "65536", Required: true},
		{Key: rpc.PropMaxMsgSize, Value: "1048576", Required: true},
		{Key: rpc.PropServerTime, Value: strconv.FormatInt(mc.PeekNano()/1e9, 10), Required: true},
		{Key: rpc.PropMOTD, Value: "motd", Required: false},
		{Key: rpc.PropDirectory, Value: strconv.FormatBool(dir), Required: false},
	}
}

// serve does the server's half of the key exchange and sends a welcome.
func (l *link) serve(welcome []byte) bool {
	mc.Quiesce()
	if !l.serveNow(welcome) {
		return false
	}
	mc.Quiesce()
	return true
}

// serveNow is serve without waiting for everything to settle.
func (l *link) serveNow(welcome []byte) bool {
	var cmd string
	if _, err := xdr.Unmarshal(io.LimitReader(l.c, 12), &cmd); err != nil || cmd != rpc.InitialCmdSession {
		mc.Fail("client %s starts with %q %v", l.cli.nick, cmd, err)
	}
	l.kx = &fakesession.KX{Conn: l.c, MaxMessageSize: 1048576, OurPublicKey: &srvID.Public.Key}
	if err := l.kx.Respond(); err != nil {
		mc.Fail("client %s: %v", l.cli.nick, err)
	}
	return l.kx.Write(welcome) == nil
}

func welcome(p []rpc.ServerProperty) []byte {
	return xenc(rpc.Message{Command: rpc.SessionCmdWelcome}, rpc.Welcome{Version: rpc.ProtocolVersion, Properties: p})
}

// online waits for the client to connect and lets it in.
func (c *cli) online(dir bool) *link {
	mc.Quiesce()
	if len(c.links) == 0 {
		mc.Fail("client %s does not connect: %s", c.nick, c.console())
	}
	l := c.links[len(c.links)-1]
	l.dir = dir
	l.serve(welcome(props(dir)))
	return l
}

// boot starts a client and gets it online.
func boot(id *zkidentity.FullIdentity, dir bool) (*cli, *link) {
	c := start(id)
	return c, c.online(dir)
}

// read takes in whatever the client has sent so far.
func (l *link) read() (out []rmsg) {
	for l.c.Pending() > 0 {
		b, err := l.kx.Read()
		if err != nil {
			mc.Fail("client sent garbage: %v", err)
		}
		r := rmsg{raw: b}
		br := bytes.NewReader(b)
		if _, err := xdr.Unmarshal(br, &r.m); err != nil {
			mc.Fail("client sent garbage: %v", err)
		}
		r.body = b[len(b)-br.Len():]
		out = append(out, r)
	}
	l.got = append(l.got, out...)
	return
}

func (l *link) poll() []rmsg {
	mc.Quiesce()
	return l.read()
}

func (l *link) dead() bool { return l.c.PeerClosed() }

func (l *link) send(cmd string, tag uint32, payload interface{}) error {
	return l.sendMsg(rpc.Message{Command: cmd, Tag: tag}, payload)
}

func (l *link) sendMsg(m rpc.Message, payload interface{}) error {
	var b []byte
	if payload == nil {
		b = xenc(m)
	} else {
		b = xenc(m, payload)
	}
	return l.kx.Write(b)
}

// ack acknowledges cached messages; others are returned.
func (l *link) ack(ms []rmsg) (rest []rmsg) {
	for _, m := range ms {
		if m.m.Command == rpc.TaggedCmdCache {
			l.send(rpc.TaggedCmdAcknowledge, m.m.Tag, rpc.Acknowledge{})
			continue
		}
		rest = append(rest, m)
	}
	mc.Quiesce()
	return
}

// peer is a counterparty of a client that is simulated by the harness.
type peer struct {
	id  *zkidentity.FullIdentity
	me  *zkidentity.FullIdentity // the client
	r   *ratchet.Ratchet
	tag uint32
}

func (c *cli) peer(id *zkidentity.FullIdentity) *peer {
	if p := c.peers[hexID(id)]; p != nil {
		return p
	}
	p := &peer{id: id, me: c.id}
	st := basePeers[c.nick+hexID(id)]
	if c.states != nil {
		st = c.states[hexID(id)]
	}
	if st != nil {
		var rs disk.RatchetState
		if _, err := xdr.Unmarshal(bytes.NewReader(st), &rs); err != nil {
			panic(err)
		}
		p.r = ratchet.New(vrand.Reader)
		if err := p.r.Unmarshal(&rs); err != nil {
			panic(err)
		}
		p.arm()
	}
	c.peers[hexID(id)] = p
	return p
}

func (p *peer) arm() {
	p.r.MyPrivateKey = &p.id.PrivateKey
	p.r.MySigningPublic = &p.id.Public.SigKey
	p.r.TheirIdentityPublic = &p.me.Public.Identity
	p.r.TheirSigningPublic = &p.me.Public.SigKey
	p.r.TheirPublicKey = &p.me.Public.Key
}

func crpcOf(v interface{}) string {
	switch v.(type) {
	case rpc.PrivateMessage:
		return rpc.CRPCCmdPrivateMessage
	case rpc.GroupInvite:
		return rpc.CRPCCmdGroupInvite
	case rpc.GroupJoin:
		return rpc.CRPCCmdGroupJoin
	case rpc.GroupList:
		return rpc.CRPCCmdGroupList
	case rpc.GroupUpdate:
		return rpc.CRPCCmdGroupUpdate
	case rpc.GroupMessage:
		return rpc.CRPCCmdGroupMessage
	case rpc.GroupPart:
		return rpc.CRPCCmdGroupPart
	case rpc.GroupKill:
		return rpc.CRPCCmdGroupKill
	case rpc.GroupKick:
		return rpc.CRPCCmdGroupKick
	case rpc.ChunkNew:
		return rpc.CRPCCmdChunkNew
	case rpc.Chunk:
		return rpc.CRPCCmdChunk
	case rpc.JanitorMessage:
		return rpc.CRPCCmdJanitorMessage
	}
	panic(fmt.Sprintf("%T", v))
}

// seal encrypts a payload for the client the way its peers do.
func (p *peer) seal(v interface{}) []byte {
	return p.sealRaw(append(xenc(rpc.CRPC{Timestamp: mc.PeekNano() / 1e9, Command: crpcOf(v)}), xenc(v)...))
}

func (p *peer) sealRaw(plain []byte) []byte {
	b, err := p.r.Encrypt(nil, plain)
	if err != nil {
		mc.Fail("peer cannot encrypt: %v", err)
	}
	return b
}

// open decrypts what the client cached for the peer.
func (p *peer) open(b []byte) (rpc.CRPC, io.Reader) {
	var c rpc.CRPC
	plain, err := p.r.Decrypt(b)
	if err != nil {
		mc.Fail("%s cannot decrypt what %s sent: %v", p.id.Public.Nick, p.me.Public.Nick, err)
	}
	br := bytes.NewReader(plain)
	if _, err := xdr.Unmarshal(br, &c); err != nil {
		mc.Fail("client sent garbage: %v", err)
	}
	var rd io.Reader = br
	switch c.Compression {
	case rpc.CRPCCompZLIB:
		if rd, err = zlib.NewReader(br); err != nil {
			mc.Fail("client sent garbage: %v", err)
		}
	case rpc.CRPCCompNone:
	default:
		mc.Fail("client compresses with %q", c.Compression)
	}
	return c, rd
}

func (p *peer) decode(b []byte) interface{} {
	c, rd := p.open(b)
	var v interface{}
	switch c.Command {
	case rpc.CRPCCmdPrivateMessage:
		v = new(rpc.PrivateMessage)
	case rpc.CRPCCmdGroupInvite:
		v = new(rpc.GroupInvite)
	case rpc.CRPCCmdGroupJoin:
		v = new(rpc.GroupJoin)
	case rpc.CRPCCmdGroupList:
		v = new(rpc.GroupList)
	case rpc.CRPCCmdGroupUpdate:
		v = new(rpc.GroupUpdate)
	case rpc.CRPCCmdGroupMessage:
		v = new(rpc.GroupMessage)
	case rpc.CRPCCmdGroupPart:
		v = new(rpc.GroupPart)
	case rpc.CRPCCmdGroupKill:
		v = new(rpc.GroupKill)
	case rpc.CRPCCmdGroupKick:
		v = new(rpc.GroupKick)
	case rpc.CRPCCmdChunkNew:
		v = new(rpc.ChunkNew)
	case rpc.CRPCCmdChunk:
		v = new(rpc.Chunk)
	case rpc.CRPCCmdJanitorMessage:
		v = new(rpc.JanitorMessage)
	default:
		mc.Fail("client sent command %q", c.Command)
	}
	if _, err := xdr.Unmarshal(rd, v); err != nil {
		mc.Fail("client sent garbage: %v", err)
	}
	return v
}

// push pushes a peer's message to the client without waiting.
func (l *link) pushNow(tag uint32, from *zkidentity.FullIdentity, payload []byte) {
	l.send(rpc.TaggedCmdPush, tag, rpc.Push{From: from.Public.Identity, Received: mc.PeekNano() / 1e9, Payload: payload})
}

// push pushes a message and demands that it is acknowledged; what else the
// client sends is returned.
func (l *link) push(from *zkidentity.FullIdentity, payload []byte) (rest []rmsg) {
	return l.pushMsg(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 3}, from, payload)
}

func (l *link) pushMsg(m rpc.Message, from *zkidentity.FullIdentity, payload []byte) (rest []rmsg) {
	l.sendMsg(m, rpc.Push{From: from.Public.Identity, Received: mc.PeekNano() / 1e9, Payload: payload})
	acked := 0
	for _, r := range l.poll() {
		if r.m.Command == rpc.TaggedCmdAcknowledge && r.m.Tag == m.Tag {
			acked++
			continue
		}
		rest = append(rest, r)
	}
	if acked != 1 {
		mc.Fail("pushed message acknowledged %d times; connection closed: %v; %s", acked, l.dead(), l.cli.tail())
	}
	return
}

func (c *cli) tail() string {
	s := c.screen()[0]
	if len(s) > 4 {
		s = s[len(s)-4:]
	}
	return "console: " + strings.Join(s, " | ")
}

// tell pushes a payload from a peer.
func (l *link) tell(p *peer, v interface{}) []rmsg { return l.push(p.id, p.seal(v)) }

// sent decrypts cached messages, acknowledges them, and returns them by
// recipient; messages to a peer are decoded in order.
func (l *link) sent(ms []rmsg) (out []sentMsg) {
	for _, m := range ms {
		if m.m.Command != rpc.TaggedCmdCache {
			continue
		}
		var c rpc.Cache
		m.into(&c)
		p := l.cli.byID(c.To)
		if p == nil {
			mc.Fail("message to unknown recipient %x", c.To)
		}
		out = append(out, sentMsg{p.id.Public.Nick, p, p.decode(c.Payload)})
	}
	l.ack(ms)
	return
}

type sentMsg struct {
	nick string
	p    *peer
	v    interface{}
}

func (c *cli) byID(id [32]byte) *peer {
	for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID, daveID, bob2ID, annID} {
		if i.Public.Identity == id {
			return c.peer(i)
		}
	}
	return nil
}

// group reads a group from the client's disk.
func (c *cli) group(name string) *rpc.GroupList {
	b, ok := vfs.Cur.Read(root(c.nick) + "/groupchat/" + name)
	if !ok {
		return nil
	}
	var g rpc.GroupList
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &g); err != nil {
		mc.Fail("group %s is corrupt on disk: %v", name, err)
	}
	return &g
}

func members(g *rpc.GroupList) string {
	if g == nil {
		return "none"
	}
	var s []string
	for _, m := range g.Members {
		n := hex.EncodeToString(m[:4])
		for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID, daveID, bob2ID} {
			if i.Public.Identity == m {
				n = i.Public.Nick
			}
		}
		s = append(s, n)
	}
	if len(s) > 1 {
		sort.Strings(s[1:])
	}
	return strings.Join(s, ",")
}

// alive demands that the client still handles messages and commands.
func (c *cli) alive(l *link, p *peer, text string) {
	l.tell(p, rpc.PrivateMessage{Text: text})
	if n := c.shown(text); n != 1 {
		mc.Fail("private message shown %d times; %s", n, c.tail())
	}
}

// forever lets tickers tick as long as time passes.
func forever() {
	vtime.MaxTicks = 1 << 30
	mc.TimersEnd = true
}
