//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"
	"syscall"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver"
	"github.com/companyzero/zkc/zkserver/socketapi"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vflag"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vnet"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vsignal"
	"github.com/companyzero/zkc/zz/vtime"
	"github.com/companyzero/zkc/zz/vtls"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	mc.Register(&mc.Check{ID: "B09", Level: "fault_enumeration", Run: checkB09, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"crash model: completed metadata operations are durable and ordered, data is durable once synced"}})
}

// ---- B09: the server's start ----

const (
	confFile = "/etc/zkserver.conf"
	listenAt = "127.0.0.1:12345"
	b09conf  = "root = /srv/zk\nusers = /srv/zk/home\nlisten = " + listenAt + "\nallowidentify = yes\nmotd = /srv/zk/motd.txt\n" +
		"[log]\nlogfile = /srv/zk/log\n"
)

// shown is what clients recognise a server by.
type shown struct {
	id   [32]byte
	key  [32]byte
	cert string
}

func (s *shown) String() string {
	return fmt.Sprintf("identity %x certificate %x", s.id[:4], fmt.Sprint(len(s.cert)))
}

// upAt is the number of logged file operations at which the server began to
// listen for clients.
var upAt int

// up starts the server program on the current disk and, when it serves, asks
// who it is.
func up(acct *zkidentity.FullIdentity, mail string) (*shown, error) {
	vnet.Lsns, vsignal.Waiting, vtls.Shown = nil, nil, nil
	vflag.Line = []string{"-cfg", confFile}
	var err error
	done := false
	mc.Go("zkserver", func() { err = zkserver.Main(); done = true })
	mc.Quiesce()
	upAt = len(vfs.Cur.Log)
	vfs.Cur.Fault, vfs.Cur.Short = nil, nil
	if done {
		if err == nil {
			mc.Fail("the server stops by itself")
		}
		return nil, err
	}
	if len(vsignal.Waiting) == 0 {
		mc.Fail("the server hangs: %v", mc.Blocked())
	}
	var l []string
	for _, x := range vnet.Lsns {
		l = append(l, x.Network+" "+x.Address)
	}
	if strings.Join(l, ", ") != "unix /srv/zk/"+socketapi.SocketFilename+", tcp "+listenAt {
		mc.Fail("the server listens on %v", l)
	}
	// who is it?
	s := &shown{}
	cl := vnet.Connect("tcp", listenAt, "probe")
	c := &conn{c: cl}
	c.put(rpc.InitialCmdIdentify)
	mc.Quiesce()
	var pid zkidentity.PublicIdentity
	b := make([]byte, cl.Pending())
	if len(b) == 0 {
		mc.Fail("the server does not identify itself")
	}
	cl.Read(b)
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &pid); err != nil {
		mc.Fail("identity: %v", err)
	}
	if !pid.Verify() {
		mc.Fail("the server's identity is not signed")
	}
	s.id, s.cert = pid.Identity, string(vtls.Shown)
	copy(s.key[:], pid.Key[:])
	if s.cert == "" {
		mc.Fail("the server shows no certificate")
	}
	cl.Close()
	// the administration socket answers
	adm := vnet.Connect("unix", "/srv/zk/"+socketapi.SocketFilename, "adm")
	a := &conn{c: adm}
	a.request(socketapi.SCUserEnable, "nonsense")
	mc.Quiesce()
	if adm.Pending() == 0 {
		mc.Fail("the administration socket is dead")
	}
	adm.Close()
	// accounts work
	if acct != nil {
		cl := vnet.Connect("tcp", listenAt, "user")
		c := &conn{c: cl, id: acct, name: "user"}
		c.put(rpc.InitialCmdSession)
		c.kx = &fakesession.KX{Conn: cl, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPrivateKey: &acct.PrivateKey,
			OurPublicKey: &acct.Public.Key, TheirPublicKey: &pid.Key}
		if err := c.kx.Initiate(); err != nil {
			mc.Fail("account does not work: %v", err)
		}
		got := ""
		for _, m := range c.poll() {
			if m.m.Command == rpc.TaggedCmdPush {
				var p rpc.Push
				m.into(&p)
				got += string(p.Payload) + ";"
			}
		}
		if got != mail {
			mc.Fail("mailbox holds %q, want %q", got, mail)
		}
		cl.Close()
		mc.Quiesce()
	}
	return s, nil
}

// stop ends the server with a signal.
func stop() {
	mc.Send((chan<- os.Signal)(vsignal.Waiting[0]))(syscall.SIGTERM)
	mc.Quiesce()
}

// exposed returns files other users can get at.
func exposed(fs *vfs.FS) (out []string) {
	for _, p := range fs.Files("/srv") {
		if strings.HasSuffix(p, "motd.txt") {
			continue
		}
		open := true
		for d := path.Dir(p); d != "/" && d != "/srv"; d = path.Dir(d) {
			if fs.Mode(d)&0011 == 0 {
				open = false
			}
		}
		if open && fs.Mode(p)&0077 != 0 {
			out = append(out, fmt.Sprintf("%s (%v)", p, fs.Mode(p)))
		}
	}
	return
}

func b09FS() *vfs.FS {
	vtime.Hook, vrand.Hook = nil, nil
	mc.MapDesc = false
	fs := vfs.Reset()
	fs.Put(confFile, []byte(b09conf))
	fs.PutDir("/srv")
	return fs
}

func checkB09(c *mc.Ctx) {
	world()
	mc.CalmStart = true
	tears := c.Pick(2, 0)
	type start struct {
		name string
		fs   *vfs.FS
		was  *shown // what the server showed before
		acct *zkidentity.FullIdentity
		mail string
	}
	// start once without problems
	first := func(fs *vfs.FS) (after *vfs.FS, s *shown, log []vfs.Rec, at int, bad string) {
		vfs.Cur = fs
		vfs.Cur.Log = nil
		bad = mc.RunOnce(func() {
			var err error
			if s, err = up(nil, ""); err != nil {
				mc.Fail("does not start: %v", err)
			}
			at = upAt
			if e := exposed(vfs.Cur); len(e) > 0 {
				mc.Fail("others can read %v", e)
			}
		})
		return vfs.Cur, s, vfs.Cur.Log, at, bad
	}
	fs := b09FS()
	base := fs.Clone()
	after, s, log, at, bad := first(fs)
	if bad != "" {
		c.Violate("first", "first start", "first start: %s", bad)
		return
	}
	c.Eval("first start")
	// again checks a start on disk fs that follows what; was is who the
	// server must be, nil when nobody can know it yet.
	again := func(key, what string, fs *vfs.FS, was *shown, acct *zkidentity.FullIdentity, mail string, fault *b09fault, depth int) {
		var rec func(key, what string, fs *vfs.FS, was *shown, fault *b09fault, depth int)
		rec = func(key, what string, fs *vfs.FS, was *shown, fault *b09fault, depth int) {
			b := fs.Clone()
			vfs.Cur = fs
			vfs.Cur.Log = nil
			var s *shown
			var err error
			at := 0
			f := mc.RunOnce(func() {
				if fault != nil {
					fault.install(vfs.Cur)
				}
				s, err = up(acct, mail)
				at = upAt
				if err != nil && fault == nil {
					mc.Fail("the server does not start: %v", err)
				}
				if s != nil && was != nil && *s != *was {
					mc.Fail("the server shows %v, it used to show %v", s, was)
				}
				if e := exposed(vfs.Cur); len(e) > 0 {
					mc.Fail("others can read %v", e)
				}
				if s != nil {
					stop()
					if len(mc.Blocked()) > 2 {
						mc.Fail("the server does not stop when told: %v", mc.Blocked())
					}
				}
			})
			c.R.States++
			c.Eval(fmt.Sprintf("%s up=%v same=%v", key, s != nil, was != nil))
			if f != "" {
				c.Violate(key+":"+firstLine(f), what, "%s: %s", what, f)
				return
			}
			log, end := vfs.Cur.Log, vfs.Cur
			if fault != nil {
				if s != nil && was == nil {
					was = s
				}
				rec(key+"+start", what+"; start", end.Clone(), was, nil, 0)
				return
			}
			if depth == 0 {
				return
			}
			n := vfs.Crashes(b, log, tears, true, func(cr vfs.Crash) bool {
				w := was
				if w == nil && cr.After >= at {
					w = s
				}
				rec(key+"+crash", fmt.Sprintf("%s; start with %v", what, cr), cr.FS, w, nil, depth-1)
				return len(c.R.Violations) == 0 && !c.Expired()
			})
			c.R.Traces += n
		}
		rec(key, what, fs, was, fault, depth)
	}
	// crashes of the first start
	n := vfs.Crashes(base, log, tears, true, func(cr vfs.Crash) bool {
		c.R.Traces++
		if !c.Mine(c.R.Traces) {
			return true
		}
		var was *shown
		if cr.After >= at {
			was = s
		}
		again("crash", fmt.Sprintf("first start with %v", cr), cr.FS, was, nil, "", nil, c.Pick(1, 2))
		return len(c.R.Violations) == 0 && !c.Expired()
	})
	c.Sample(map[string]interface{}{"first_start": fmt.Sprint(log), "crash_states": n, "listens_after": at})
	// a server that has been in use
	used := after.Clone()
	{
		for p, d := range map[string]string{} {
			used.Put(p, []byte(d))
		}
		for _, p := range baseFS.Files(users) {
			b, _ := baseFS.Read(p)
			used.Put(p, b)
		}
		for _, id := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
			used.PutDir(users + "/" + hexID(id) + "/cache")
		}
		vfs.Cur = used
	}
	starts := []start{
		{"first", base, nil, nil, ""},
		{"later", used, s, aliceID, ""},
	}
	// failing operations
	k := 0
	for _, st := range starts {
		for i := 0; ; i++ {
			hit := 0
			for _, e := range []error{syscall.EIO, syscall.EMFILE, syscall.EACCES} {
				for _, short := range []bool{false, true} {
					fault := &b09fault{at: i, err: e, short: short}
					k++
					if c.Mine(k) {
						again(st.name+":fault", fmt.Sprintf("%s start, operation %d fails (%v, short %v)", st.name, i, e, short), st.fs.Clone(), st.was, st.acct, st.mail, fault, 0)
						if fault.hit != "" {
							hit++
						}
					} else {
						hit++
					}
				}
			}
			if hit == 0 || i > 300 || len(c.R.Violations) > 0 || c.Expired() {
				break
			}
		}
		k += 1000
	}
	// crashes of a later start
	again("later", "later start", used.Clone(), s, aliceID, "", nil, c.Pick(1, 2))
	// somebody else has the address
	if c.Mine(3) {
		for _, busy := range []string{listenAt} {
			vfs.Cur = used.Clone()
			before := vfs.Cur.Dump("/srv")
			_ = before
			f := mc.RunOnce(func() {
				vnet.Busy = busy
				if _, err := up(nil, ""); err == nil {
					mc.Fail("the server starts without listening")
				}
			})
			vnet.Busy = ""
			if f != "" {
				c.Violate("busy", busy, "address in use: %s", f)
			}
			again("after busy", "start with the address in use", vfs.Cur, s, aliceID, "", nil, 0)
		}
	}
	// missing pieces the operator removed
	if c.Mine(4) {
		for _, rm := range []string{tools.ZKSCertFilename, tools.ZKSKeyFilename, tools.ZKSCertFilename + " " + tools.ZKSKeyFilename, tools.ZKSIdentityFilename} {
			fs := used.Clone()
			for _, x := range strings.Fields(rm) {
				fs.Del(sroot + "/" + x)
			}
			again("removed "+rm, "removed "+rm, fs, nil, aliceID, "", nil, 1)
		}
	}
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// b09fault fails one file operation.
type b09fault struct {
	at    int
	err   error
	short bool
	n     int
	hit   string
}

func (b *b09fault) install(fs *vfs.FS) {
	fs.Fault = func(op, p string) error {
		b.n++
		if b.n-1 == b.at {
			b.hit = op + " " + p
			return b.err
		}
		return nil
	}
	fs.Short = func(op, path string, n int) int {
		if b.short {
			return n / 2
		}
		return 0
	}
}
