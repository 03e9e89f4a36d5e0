//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/tools"
	"github.com/companyzero/zkc/tools/zkexport"
	"github.com/companyzero/zkc/tools/zkimport"
	"github.com/companyzero/zkc/tools/zkserverctl"
	"github.com/companyzero/zkc/tools/zkserverdump"
	"github.com/companyzero/zkc/tools/zkservertoken"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver"
	"github.com/companyzero/zkc/zz/fakesession"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vflag"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vnet"
	"github.com/companyzero/zkc/zz/vos"
	"github.com/companyzero/zkc/zz/vsignal"
	"github.com/companyzero/zkc/zz/vtls"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

func init() {
	mc.Register(&mc.Check{ID: "H01", Level: "model_checking", Run: checkH01, Assumptions: []string{
		"the encrypted transport is replaced by a transparent one (E01-E03 check the real one)",
		"crash model: completed metadata operations are durable and ordered, data is durable once synced"}})
}

// ---- H01: the operator's programs ----

const (
	h01conf = "root = /srv/zk\nusers = /srv/zk/home\nlisten = " + listenAt + "\nallowidentify = yes\ncreatepolicy = token\ndirectory = yes\n"
	cliRoot = "/home/u"
	cliConf = "/home/u.conf"
)

type exited struct{ code int }

// tool runs a program and returns what it printed and whether it succeeded.
func tool(main func() error, stdin string, args ...string) (out string, ok bool) {
	vflag.Line = args
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	vfs.Cur.Put("/dev/stdin", []byte(stdin))
	vfs.Cur.Put("/dev/stderr", nil)
	in, err1 := vfs.OpenFile("/dev/stdin", os.O_RDONLY, 0)
	er, err2 := vfs.OpenFile("/dev/stderr", os.O_WRONLY, 0)
	if err1 != nil || err2 != nil {
		panic("std")
	}
	so := os.Stdout
	oi, oe := vos.Stdin, vos.Stderr
	os.Stdout, vos.Stdin, vos.Stderr = w, in, er
	vos.OnExit = func(code int) { panic(exited{code}) }
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				x, is := e.(exited)
				if !is {
					os.Stdout = so
					panic(e)
				}
				ok = x.code == 0
			}
		}()
		ok = main() == nil
	}()
	vos.OnExit = nil
	os.Stdout, vos.Stdin, vos.Stderr = so, oi, oe
	w.Close()
	out = <-done
	r.Close()
	return
}

// hworld is a running server and what should be true of it.
type hworld struct {
	accounts map[string]bool  // may log in
	disabled map[string]bool  // has a disabled account
	tokens   []string         // in the order of their creation
	expires  map[string]int64 // those that were not used
	used     int
}

// serve runs the server program.
func serve() {
	vnet.Lsns, vsignal.Waiting, vtls.Shown = nil, nil, nil
	vflag.Line = []string{"-cfg", confFile}
	failed := error(nil)
	mc.Go("zkserver", func() { failed = zkserver.Main() })
	mc.Quiesce()
	if failed != nil || len(vsignal.Waiting) == 0 {
		mc.Fail("the server does not start: %v %v", failed, mc.Blocked())
	}
}

// ident asks the server who it is.
func ident() zkidentity.PublicIdentity {
	cl := vnet.Connect("tcp", listenAt, "probe")
	c := &conn{c: cl}
	c.put(rpc.InitialCmdIdentify)
	mc.Quiesce()
	var pid zkidentity.PublicIdentity
	b := make([]byte, cl.Pending())
	if len(b) > 0 {
		cl.Read(b)
	}
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &pid); err != nil {
		mc.Fail("identity: %v", err)
	}
	cl.Close()
	mc.Quiesce()
	return pid
}

// logsIn tells whether id can open a session with server pid.
func logsIn(id *zkidentity.FullIdentity, pid zkidentity.PublicIdentity) bool {
	cl := vnet.Connect("tcp", listenAt, "user")
	c := &conn{c: cl, id: id, name: "user"}
	c.put(rpc.InitialCmdSession)
	c.kx = &fakesession.KX{Conn: cl, MaxMessageSize: uint(rpc.PropMaxMsgSizeDefault), OurPrivateKey: &id.PrivateKey,
		OurPublicKey: &id.Public.Key, TheirPublicKey: &pid.Key}
	if err := c.kx.Initiate(); err != nil {
		return false
	}
	ok := false
	for _, m := range c.poll() {
		ok = ok || m.m.Command == rpc.SessionCmdWelcome
	}
	cl.Close()
	mc.Quiesce()
	return ok
}

// create asks for an account with a token.
func create(id *zkidentity.FullIdentity, token string) bool {
	cl := vnet.Connect("tcp", listenAt, "create")
	c := &conn{c: cl}
	c.put(rpc.InitialCmdCreateAccount)
	c.put(rpc.CreateAccount{PublicIdentity: id.Public, Token: token})
	mc.Quiesce()
	var r rpc.CreateAccountReply
	b := make([]byte, cl.Pending())
	if len(b) > 0 {
		cl.Read(b)
	}
	if _, err := xdr.Unmarshal(bytes.NewReader(b), &r); err != nil {
		mc.Fail("no reply to an account request: %v", err)
	}
	cl.Close()
	mc.Quiesce()
	return r.Error == ""
}

// exported is a client's exported identity, made by the real program from a
// client's directory.
func exported(id *zkidentity.FullIdentity) string {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, id); err != nil {
		panic(err)
	}
	dir := "/tmp/" + id.Public.Nick
	vfs.Cur.PutDir(dir + "/myserver")
	db, err := inidb.New(dir+"/"+tools.ZKCServerFilename, true, 10)
	if err != nil && !errors.Is(err, inidb.ErrCreated) {
		panic(err)
	}
	db.Set("", "myidentity", base64.StdEncoding.EncodeToString(b.Bytes()))
	if err := db.Save(); err != nil {
		panic(err)
	}
	out, ok := tool(zkexport.Main, "", "-root", dir)
	if !ok || len(strings.Fields(out)) != 1 {
		mc.Fail("zkexport of a client prints %q (%v)", out, ok)
	}
	fp, ok := tool(zkexport.Main, "", "-root", dir, "-f")
	if !ok || strings.TrimSpace(fp) != id.Public.Fingerprint() {
		mc.Fail("zkexport -f of a client prints %q (%v)", fp, ok)
	}
	vfs.Cur.RemoveQuiet("/tmp")
	return out
}

var h01people []*zkidentity.FullIdentity

func (w *hworld) verify(pid zkidentity.PublicIdentity, what string) {
	for _, id := range h01people {
		n := id.Public.Nick
		if g := logsIn(id, pid); g != w.accounts[n] {
			mc.Fail("%s: %s can log in: %v, want %v", what, n, g, w.accounts[n])
		}
	}
	out, ok := tool(zkserverdump.Main, "", "-cfg", confFile)
	if !ok {
		mc.Fail("%s: zkserverdump fails after %q", what, out)
	}
	for _, id := range h01people {
		n := id.Public.Nick
		has := strings.Contains(out, fmt.Sprintf("%x %s\n", id.Public.Identity, n))
		if has != (w.accounts[n] || w.disabled[n]) {
			mc.Fail("%s: zkserverdump lists %s: %v, want %v\n%s", what, n, has, w.accounts[n] || w.disabled[n], out)
		}
	}
	if c := strings.Count(out, "\n") - 1; c != len(w.accounts)+len(w.disabled) {
		mc.Fail("%s: zkserverdump lists %d accounts, want %d", what, c, len(w.accounts)+len(w.disabled))
	}
}

// importServer imports the server's record into a client's directory.
func importServer(blob, answer string, force bool) bool {
	vfs.Cur.Put("/home/blob", []byte(blob))
	args := []string{"-cfg", cliConf}
	if force {
		args = append(args, "-f")
	}
	_, ok := tool(zkimport.Main, answer, append(args, "/home/blob")...)
	return ok
}

// record reads a client's server record; there is none without a server.
func record() (server, id, cert, dir string, err error) {
	db, err := inidb.New(cliRoot+"/"+tools.ZKCServerFilename, false, 10)
	if err != nil {
		return
	}
	get := func(k string) string {
		v, e := db.Get("", k)
		if e != nil {
			err = fmt.Errorf("%v: %v", k, e)
		}
		return v
	}
	return get("server"), get("serveridentity"), get("servercert"), get("directory"), err
}

func importClient(blob string, force bool) bool {
	vfs.Cur.Put("/srv/blob", []byte(blob))
	args := []string{"-cfg", confFile}
	if force {
		args = append(args, "-f")
	}
	_, ok := tool(zkimport.Main, "", append(args, "/srv/blob")...)
	vfs.Cur.Del("/srv/blob")
	return ok
}

func checkH01(c *mc.Ctx) {
	world()
	mc.CalmStart = true
	h01people = []*zkidentity.FullIdentity{aliceID, bobID, carolID, newFull("dave"), newFull("erin")}
	dave := h01people[3]
	newcomers := []*zkidentity.FullIdentity{newFull("new0"), newFull("new1"), newFull("new2"), newFull("new3"), newFull("new4")}
	h01people = append(h01people, newcomers...)
	blobs := map[string]string{}
	// the server's disk after its first start, with accounts
	fs := b09FS()
	fs.Put(confFile, []byte(h01conf))
	fs.Put("/srv/zk/zkserver.conf", []byte(h01conf))
	fs.Put(cliConf, []byte("root = "+cliRoot+"\n"))
	fs.PutDir(cliRoot)
	if f := mc.RunOnce(func() {
		serve()
		for _, id := range h01people {
			blobs[id.Public.Nick] = exported(id)
		}
	}); f != "" {
		c.Violate("start", "start", "%s", f)
		return
	}
	base := vfs.Cur
	base.Del(sroot + "/.socket")
	for _, p := range baseFS.Files(users) {
		b, _ := baseFS.Read(p)
		base.Put(p, b)
	}
	for _, id := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
		base.PutDir(users + "/" + hexID(id) + "/cache")
	}
	begin := func() (*hworld, zkidentity.PublicIdentity) {
		serve()
		return &hworld{accounts: map[string]bool{"alice": true, "bob": true, "carol": true}, disabled: map[string]bool{}, expires: map[string]int64{}}, ident()
	}
	ctl := func(cmd, id string) bool {
		out, ok := tool(zkserverctl.Main, "", "-cfg", confFile, cmd, id)
		return ok && strings.HasSuffix(out, "OK\n")
	}
	token := func(w *hworld, hours int64, args ...string) {
		out, ok := tool(zkservertoken.Main, "", append([]string{"-cfg", confFile}, args...)...)
		t := strings.Join(strings.Fields(out), "")
		if !ok || len(t) != 16 || strings.Trim(t, "0123456789") != "" || len(strings.Fields(out)) != 4 {
			mc.Fail("zkservertoken prints %q (%v)", out, ok)
		}
		if _, ok := w.expires[t]; ok {
			mc.Fail("zkservertoken gives the same token twice")
		}
		w.tokens = append(w.tokens, t)
		w.expires[t] = mc.PeekNano() + hours*3600*second
	}
	spend := func(w *hworld, t string) bool {
		id := newcomers[w.used%len(newcomers)]
		w.used++
		want := w.expires[t] > mc.PeekNano()
		delete(w.expires, t)
		// blanks as printed
		got := create(id, t)
		if got != want {
			mc.Fail("account with token %v: %v, want %v", t, got, want)
		}
		if got {
			w.accounts[id.Public.Nick] = true
		}
		return got
	}
	type op struct {
		name string
		f    func(w *hworld)
	}
	alphabet := []op{
		{"token", func(w *hworld) { token(w, 24) }},
		{"token for an hour", func(w *hworld) { token(w, 1, "-hours", "1") }},
		{"use newest token", func(w *hworld) {
			if len(w.tokens) > 0 {
				spend(w, w.tokens[len(w.tokens)-1])
			}
		}},
		{"use oldest token", func(w *hworld) {
			if len(w.tokens) > 0 {
				spend(w, w.tokens[0])
			}
		}},
		{"wrong token", func(w *hworld) { spend(w, "1234123412341234") }},
		{"two hours pass", func(w *hworld) { mc.Advance(2 * 3600 * second) }},
		{"import dave", func(w *hworld) {
			want := !w.accounts["dave"] && !w.disabled["dave"]
			if g := importClient(blobs["dave"], false); g != want {
				mc.Fail("importing dave succeeds: %v, want %v", g, want)
			}
			if want {
				w.accounts["dave"] = true
			}
		}},
		{"import alice", func(w *hworld) {
			if importClient(blobs["alice"], false) {
				mc.Fail("an existing account was imported")
			}
		}},
		{"disable alice", func(w *hworld) {
			want := w.accounts["alice"]
			if g := ctl("userdisable", hexID(aliceID)); g != want {
				mc.Fail("disabling alice succeeds: %v, want %v", g, want)
			}
			if want {
				delete(w.accounts, "alice")
				w.disabled["alice"] = true
			}
		}},
		{"enable alice", func(w *hworld) {
			want := w.disabled["alice"]
			if g := ctl("userenable", hexID(aliceID)); g != want {
				mc.Fail("enabling alice succeeds: %v, want %v", g, want)
			}
			if want {
				delete(w.disabled, "alice")
				w.accounts["alice"] = true
			}
		}},
		{"disable nobody", func(w *hworld) {
			for _, x := range []string{hexID(dave), "zz", "", hexID(aliceID)[:10], "../" + hexID(aliceID)} {
				if x == hexID(dave) && w.accounts["dave"] {
					continue
				}
				if ctl("userdisable", x) {
					mc.Fail("disabling %q succeeds", x)
				}
			}
		}},
		{"restart", func(w *hworld) { stop(); serve() }},
		{"export", func(w *hworld) {}},
	}
	seqs(c, len(alphabet), c.Pick(3, 5), func(s []int) bool {
		if c.Expired() {
			return false
		}
		var names []string
		for _, i := range s {
			names = append(names, alphabet[i].name)
		}
		key := strings.Join(names, "; ")
		vfs.Cur = base.Clone()
		sum := ""
		f := mc.RunOnce(func() {
			w, pid := begin()
			for _, i := range s {
				alphabet[i].f(w)
			}
			w.verify(pid, "afterwards")
			// tokens that are left work, and only once
			for _, t := range append([]string(nil), w.tokens...) {
				spend(w, t)
				spend(w, t)
			}
			sum = fmt.Sprint(w.accounts, w.disabled, w.used)
		})
		c.R.States++
		c.R.Transitions += len(s)
		if f != "" {
			c.Violate("seq:"+firstLine(f), key, "%s: %s", key, f)
			return false
		}
		c.Eval(sum)
		return len(c.R.Violations) == 0
	})
	// the record clients import
	if c.Mine(1) {
		vfs.Cur = base.Clone()
		f := mc.RunOnce(func() {
			serve()
			pid := ident()
			cert := string(vtls.Shown)
			wantID, err := pid.Marshal()
			if err != nil {
				mc.Fail("%v", err)
			}
			out, ok := tool(zkexport.Main, "", "-s", "-root", sroot)
			if !ok || len(strings.Fields(out)) != 1 {
				mc.Fail("zkexport -s prints %q (%v)", out, ok)
			}
			fps, ok := tool(zkexport.Main, "", "-s", "-root", sroot, "-f")
			if !ok || fps != "outer: "+tools.Fingerprint([]byte(cert))+"\ninner: "+pid.Fingerprint()+"\n" {
				mc.Fail("zkexport -s -f prints %q (%v)", fps, ok)
			}
			other, ok := tool(zkexport.Main, "", "-s", "-root", sroot, "-i", "10.0.0.1:99")
			if !ok {
				mc.Fail("zkexport -s -i fails")
			}
			good := func(what, at string) {
				s, id, ce, dir, err := record()
				if err != nil {
					mc.Fail("%s: record: %v", what, err)
				}
				if s != at || id != base64.StdEncoding.EncodeToString(wantID) || ce != base64.StdEncoding.EncodeToString([]byte(cert)) || dir != "true" {
					mc.Fail("%s: imported %q %q %q %q", what, s, id, ce, dir)
				}
			}
			for _, a := range []string{"no\n", "\n", "", "Yes!\n", "yess\n"} {
				if importServer(out, a, false) {
					mc.Fail("imported although the user answered %q", a)
				}
				if _, _, _, _, err := record(); err == nil {
					mc.Fail("record imported although the user answered %q", a)
				}
			}
			before := vfs.Cur.Clone()
			before.Log = nil
			vfs.Cur.Log = nil
			if !importServer(out, "yes\n", false) {
				mc.Fail("importing the server fails")
			}
			log := vfs.Cur.Log
			good("import", listenAt)
			if importServer(other, "yes\n", false) {
				mc.Fail("a configured server was replaced")
			}
			good("refused import", listenAt)
			mid := vfs.Cur.Clone()
			vfs.Cur.Log = nil
			if !importServer(other, "", true) {
				mc.Fail("replacing the server with -f fails")
			}
			log2 := vfs.Cur.Log
			good("forced import", "10.0.0.1:99")
			// damaged and mixed up records
			for i, b := range []string{"", "AAAA", out[:len(out)/2], out[:20] + "!" + out[21:]} {
				if importServer(b, "yes\n", true); true {
					good(fmt.Sprintf("damaged record %d", i), "10.0.0.1:99")
				}
			}
			vfs.Crashes(before, log, 3, true, func(cr vfs.Crash) bool {
				vfs.Cur = cr.FS
				c.R.Traces++
				c.Eval("import crash")
				if s, _, _, _, err := record(); err == nil {
					good(fmt.Sprintf("import with %v (%v)", cr, s), listenAt)
				} else if !importServer(out, "yes\n", false) && !importServer(out, "yes\n", true) {
					mc.Fail("import with %v: importing again fails", cr)
				}
				good(fmt.Sprintf("import with %v, repeated", cr), listenAt)
				return true
			})
			vfs.Crashes(mid, log2, 3, true, func(cr vfs.Crash) bool {
				vfs.Cur = cr.FS
				c.R.Traces++
				c.Eval("forced import crash")
				s, _, _, _, err := record()
				if err != nil {
					mc.Fail("forced import with %v: the record is gone: %v", cr, err)
				}
				if s != listenAt {
					s = "10.0.0.1:99"
				}
				good(fmt.Sprintf("forced import with %v", cr), s)
				return true
			})
		})
		if f != "" {
			c.Violate("export:"+firstLine(f), "export and import of the server", "%s", f)
		}
	}
	// crashes of the programs that change the server's disk
	crash := func(key string, run func(w *hworld), after func(w *hworld, full bool)) {
		vfs.Cur = base.Clone()
		var b *vfs.FS
		var log []vfs.Rec
		var toks []string
		if f := mc.RunOnce(func() {
			w, _ := begin()
			token(w, 24)
			b = vfs.Cur.Clone()
			vfs.Cur.Log = nil
			run(w)
			toks = w.tokens
			log = vfs.Cur.Log
		}); f != "" {
			c.Violate("crash:"+firstLine(f), key, "%s: %s", key, f)
			return
		}
		n := 0
		vfs.Crashes(b, log, 0, true, func(cr vfs.Crash) bool {
			n++
			if !c.Mine(n) {
				return true
			}
			vfs.Cur = cr.FS
			c.R.Traces++
			f := mc.RunOnce(func() {
				w, pid := begin()
				w.tokens = toks
				after(w, cr.After == len(log) && cr.Lost == "")
				w.verify(pid, "after a crash")
				// the token issued before is still good
				w.expires[toks[0]] = 1 << 62
				if !spend(w, toks[0]) || spend(w, toks[0]) {
					mc.Fail("token")
				}
			})
			c.R.States++
			c.Eval(key)
			if f != "" {
				c.Violate("crash:"+key+":"+firstLine(f), cr.String(), "%s with %v: %s", key, cr, f)
			}
			return len(c.R.Violations) == 0 && !c.Expired()
		})
		c.Sample(map[string]interface{}{"program": key, "log": fmt.Sprint(log), "crash_states": n})
	}
	crash("zkservertoken", func(w *hworld) { token(w, 24) }, func(w *hworld, full bool) {
		if full {
			w.expires[w.tokens[1]] = 1 << 62
			spend(w, w.tokens[1])
		}
		token(w, 24)
	})
	crash("zkimport", func(w *hworld) { importClient(blobs["dave"], false) }, func(w *hworld, full bool) {
		pid := ident()
		if got := importClient(blobs["dave"], false); got == logsInBefore(dave, pid, got) || full && got {
			mc.Fail("importing again succeeds: %v", got)
		}
		w.accounts["dave"] = true
	})
}

// logsInBefore is what the outcome of importing again must differ from.
func logsInBefore(id *zkidentity.FullIdentity, pid zkidentity.PublicIdentity, got bool) bool {
	if !logsIn(id, pid) {
		mc.Fail("%s has no account after importing again", id.Public.Nick)
	}
	return !got
}
