//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

func init() {
	mc.Register(&mc.Check{ID: "G04", Level: "model_checking", Run: checkG04, Assumptions: []string{noCrypto, noTerm}})
}

// noise is data that does not compress.
func noise(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed
	for i := range b {
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
	}
	return b
}

// rfile is a file a contact sends.
type rfile struct {
	from   string
	name   string
	data   []byte
	claim  []byte // the digest is that of claim if set
	chunks int
}

func (f *rfile) digest() [32]byte {
	if f.claim != nil {
		return sha256.Sum256(f.claim)
	}
	return sha256.Sum256(f.data)
}

func (f *rfile) chunk(i int) rpc.Chunk {
	sz := (len(f.data) + f.chunks - 1) / f.chunks
	e := (i + 1) * sz
	if e > len(f.data) {
		e = len(f.data)
	}
	return rpc.Chunk{Digest: f.digest(), Offset: uint64(i * sz), Payload: f.data[i*sz : e]}
}

func (f *rfile) announce() rpc.ChunkNew {
	sz := (len(f.data) + f.chunks - 1) / f.chunks
	return rpc.ChunkNew{Size: uint64(len(f.data)), ChunkSize: uint64(sz), Filename: f.name, Description: "d", MIME: "text/plain", Digest: f.digest()}
}

// part is a file that is being received.
type part struct {
	f   *rfile
	got []byte
}

// fmodel follows what is received.
type fmodel struct {
	a       *cli
	l       *link
	parts   map[string]*part // by sender and digest
	saved   []string         // contents of the files received, in any place
	names   map[string]bool  // base names they were sent with
	before  map[string]string
	reports int
	over    map[string]bool // more was sent than announced
}

const spoolRoot = "/c/alice/spool"

// outside lists files the transfer must not touch.
func outside() map[string]string {
	m := map[string]string{}
	for _, p := range vfs.Cur.Files("/") {
		if strings.Contains(p, "/inbound/") || strings.HasPrefix(p, spoolRoot+"/") || strings.HasSuffix(p, ".log") {
			continue
		}
		b, _ := vfs.Cur.Read(p)
		m[p] = string(b)
	}
	return m
}

func newFmodel() *fmodel {
	m := &fmodel{parts: map[string]*part{}, over: map[string]bool{}}
	m.a, m.l = boot(aliceID, false)
	for _, p := range m.received() {
		m.saved = append(m.saved, m.read(p))
	}
	m.before = outside()
	return m
}

func (m *fmodel) read(p string) string {
	b, _ := vfs.Cur.Read(spoolRoot + "/" + p)
	return string(b)
}

// received lists the files that are there for the user to use.
func (m *fmodel) received() (out []string) {
	for _, n := range vfs.Cur.List(spoolRoot) {
		out = append(out, strings.TrimSuffix(n, "/"))
	}
	var files []string
	for _, n := range out {
		if _, ok := vfs.Cur.Read(spoolRoot + "/" + n); ok {
			files = append(files, n)
		}
	}
	return files
}

func (m *fmodel) key(f *rfile) string { d := f.digest(); return f.from + string(d[:]) }

func (m *fmodel) announce(f *rfile) {
	m.parts[m.key(f)] = &part{f: f}
	delete(m.over, m.key(f))
	m.l.tell(m.a.peer(idOf(f.from)), f.announce())
	m.check()
}

func (m *fmodel) chunk(f *rfile, c rpc.Chunk) {
	if p := m.parts[m.key(f)]; p != nil && int(c.Offset) == len(p.got) {
		p.got = append(p.got, c.Payload...)
		if len(p.got) == len(p.f.data) && sha256.Sum256(p.got) == f.digest() {
			m.saved = append(m.saved, string(p.got))
			m.reports++
			delete(m.parts, m.key(f))
		}
	}
	m.l.tell(m.a.peer(idOf(f.from)), c)
	m.check()
}

// check compares what was received with what was sent.
func (m *fmodel) check() {
	var got []string
	for _, n := range m.received() {
		got = append(got, m.read(n))
	}
	want := append([]string(nil), m.saved...)
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		mc.Fail("received files %s want %s; %s", digests(got), digests(want), m.a.tail())
	}
	if n := m.a.shown("File transfer complete"); n != m.reports {
		mc.Fail("%d transfers reported complete, want %d", n, m.reports)
	}
	now := outside()
	for p, b := range now {
		if m.before[p] != b {
			mc.Fail("transfer changed %s", p)
		}
	}
	for p := range m.before {
		if _, ok := now[p]; !ok {
			mc.Fail("transfer removed %s", p)
		}
	}
}

func digests(l []string) string {
	var out []string
	for _, s := range l {
		d := sha256.Sum256([]byte(s))
		out = append(out, fmt.Sprintf("%x(%d)", d[:2], len(s)))
	}
	return strings.Join(out, ",")
}

func (m *fmodel) restart() {
	m.reports = 0
	m.a, m.l = m.a.reboot(false)
	m.check()
}

// end demands that all transfers still work.
func (m *fmodel) end(all []*rfile) string {
	open := len(m.parts)
	had := len(m.saved)
	for _, f := range all {
		if f.claim != nil {
			continue
		}
		m.announce(f)
		for i := 0; i < f.chunks; i++ {
			m.chunk(f, f.chunk(i))
		}
		if m.parts[m.key(f)] != nil {
			panic("model")
		}
	}
	return fmt.Sprintf("%d open %d received", open, had)
}

// spool files of the user's own that are in the way
func spoolFS() *vfs.FS {
	fs := queueFS()
	fs.PutDir(spoolRoot)
	fs.Put(spoolRoot+"/x", []byte("the user's own x"))
	fs.Put(spoolRoot+"/1x", []byte("the user's own 1x"))
	return fs
}

func checkG04(c *mc.Ctx) {
	world()
	fs := spoolFS()
	x := &rfile{from: "bob", name: "x", data: []byte("contents of the file x"), chunks: 2}
	y := &rfile{from: "bob", name: "y", data: []byte("another one"), chunks: 1}
	xc := &rfile{from: "carol", name: "x", data: x.data, chunks: 2}
	z := &rfile{from: "carol", name: "y", data: []byte("carol's file in three chunks"), chunks: 3}
	lie := &rfile{from: "bob", name: "lie", data: []byte("what is sent"), claim: []byte("what is it"), chunks: 1}
	all := []*rfile{x, y, xc, z, lie}
	var evs []ev[*fmodel]
	for _, f := range all {
		f := f
		evs = append(evs, ev[*fmodel]{f.from + " announces " + f.name, func(m *fmodel) { m.announce(f) }})
		for i := 0; i < f.chunks; i++ {
			i := i
			evs = append(evs, ev[*fmodel]{fmt.Sprintf("%s sends chunk %d of %s", f.from, i, f.name), func(m *fmodel) { m.chunk(f, f.chunk(i)) }})
		}
	}
	evs = append(evs,
		ev[*fmodel]{"bob sends another chunk 0 of x", func(m *fmodel) {
			k := x.chunk(0)
			k.Payload = bytes.ToUpper(k.Payload)
			m.chunk(x, k)
		}},
		ev[*fmodel]{"bob sends too much of x", func(m *fmodel) {
			k := x.chunk(0)
			k.Payload = append(append([]byte(nil), x.data...), '!')
			m.chunk(x, k)
		}},
		ev[*fmodel]{"restart", func(m *fmodel) { m.restart() }},
	)
	end := func(m *fmodel) string { return m.end(all) }
	for d := 1; d <= c.Pick(4, 5); d++ {
		histories(c, "receive", fs, evs, d, newFmodel, end)
	}
	// one file, with every misplaced chunk
	at := func(what string, off int, b []byte) ev[*fmodel] {
		return ev[*fmodel]{"bob sends " + what, func(m *fmodel) {
			m.chunk(x, rpc.Chunk{Digest: x.digest(), Offset: uint64(off), Payload: b})
		}}
	}
	sz := len(x.chunk(0).Payload)
	one := append(append([]ev[*fmodel]{}, evs[:3]...), at("nothing", 0, nil), at("the second half of chunk 0", sz/2, x.data[sz/2:sz]),
		at("everything", 0, x.data), at("everything but the first byte", 1, x.data[1:]), at("past the end", len(x.data), []byte("!")),
		at("a negative offset", -1, x.data), evs[len(evs)-1])
	for d := 1; d <= c.Pick(5, 6); d++ {
		histories(c, "one file", fs, one, d, newFmodel, func(m *fmodel) string { return m.end([]*rfile{x, y}) })
	}
	// two files in every interleaving
	interleave(c, fs, all)
	names(c, fs)
	sends(c, fs)
	crashes(c, "crash while receiving", fs, c.Pick(3, 0), false, func(a *cli, l *link) {
		for _, f := range []*rfile{x, z} {
			p := a.peer(idOf(f.from))
			l.tell(p, f.announce())
			for i := 0; i < f.chunks; i++ {
				l.tell(p, f.chunk(i))
			}
		}
	}, func(a *cli, l *link, full bool) {
		m := &fmodel{a: a, l: l, parts: map[string]*part{}, before: outside(), over: map[string]bool{}}
		own, got := 0, map[string]int{}
		for _, n := range m.received() {
			s := m.read(n)
			m.saved = append(m.saved, s)
			if strings.HasPrefix(s, "the user's own") {
				own++
			} else if s != string(x.data) && s != string(z.data) {
				mc.Fail("received file %q is %q", n, s)
			}
			got[s]++
		}
		if own != 2 || full && (got[string(x.data)] != 1 || got[string(z.data)] != 1) {
			mc.Fail("received files %v", got)
		}
		m.end([]*rfile{x, z, y})
	})
	c.Note("alphabet", len(evs))
	c.Note("distinct_inputs", true)
}

// interleave mixes the transfers of pairs of files in every order.
func interleave(c *mc.Ctx, fs *vfs.FS, all []*rfile) {
	n := 0
	for i, f := range all {
		for j, g := range all {
			if i == j {
				continue
			}
			a, b := f.chunks+1, g.chunks+1
			for bits := 0; bits < 1<<(a+b); bits++ {
				ones := 0
				for k := 0; k < a+b; k++ {
					ones += bits >> k & 1
				}
				if ones != b {
					continue
				}
				n++
				if !c.Mine(n) {
					continue
				}
				var evs []ev[*fmodel]
				var seq []int
				var nm []string
				at := [2]int{}
				for k := 0; k < a+b; k++ {
					w := bits >> k & 1
					h, p := []*rfile{f, g}[w], at[w]
					at[w]++
					seq = append(seq, k)
					nm = append(nm, fmt.Sprintf("%s %s %d", h.from, h.name, p))
					evs = append(evs, ev[*fmodel]{h.name, func(m *fmodel) {
						if p == 0 {
							m.announce(h)
						} else {
							m.chunk(h, h.chunk(p-1))
						}
					}})
				}
				history(c, "two files", fs, evs, seq, nm, newFmodel, func(m *fmodel) string {
					if len(m.saved) != len(filter(all, f, g))+2 {
						mc.Fail("%d files received", len(m.saved)-2)
					}
					return "received"
				})
				c.R.Traces++
				c.R.States++
				c.R.Transitions += a + b
			}
		}
	}
}

// filter counts files that can be received.
func filter(all []*rfile, l ...*rfile) (out []*rfile) {
	for _, f := range l {
		if f.claim == nil {
			out = append(out, f)
		}
	}
	return
}

// names receives files with every name.
func names(c *mc.Ctx, fs *vfs.FS) {
	hexOf := func(i *zkidentity.FullIdentity) string { return hexID(i) }
	base := []string{"plain", "", ".", "..", "/", "//", "../up", "../../up", "a/b", "/etc/abs", "..\\x", "~/x", "x", "1x", "x/", "x/..", "../alice/zkclient.conf",
		"../inbound/" + hexOf(bobID) + "/ratchet.xdr", "../zkclient.conf", hexOf(bobID), hexOf(carolID), hexOf(aliceID), strings.ToUpper(hexOf(carolID)), "1" + hexOf(bobID),
		hexOf(bobID) + "/x", hexOf(carolID) + "/x", "n\nl", "%d%s", "\x1b[1m", "sp ace", "\xff", "bob", ".descriptor.xdr", "descriptor.xdr", "1", "11", "./x", ".//..//x"}
	n := 0
	for _, a := range base {
		for _, b := range []string{a, "x", "../x", hexOf(carolID), ".", ""} {
			n++
			if !c.Mine(n) {
				continue
			}
			x := &rfile{from: "bob", name: a, data: []byte("the first file"), chunks: 2}
			y := &rfile{from: "bob", name: b, data: []byte("the second file"), chunks: 1}
			z := &rfile{from: "carol", name: a, data: []byte("carol's file"), chunks: 1}
			evs := []ev[*fmodel]{{"transfers", func(m *fmodel) {
				for _, f := range []*rfile{x, y, z} {
					m.announce(f)
					for i := 0; i < f.chunks; i++ {
						m.chunk(f, f.chunk(i))
					}
				}
			}}, {"restart", func(m *fmodel) { m.restart() }}}
			history(c, "names", fs, evs, []int{0, 1}, []string{fmt.Sprintf("%q %q", a, b), "restart"}, newFmodel, func(m *fmodel) string {
				return m.end([]*rfile{x, y, z})
			})
			c.R.Traces++
			c.R.States++
		}
	}
}

// sends sends files of all sizes with all limits.
func sends(c *mc.Ctx, fs *vfs.FS) {
	n := 0
	for _, chunk := range []int{1, 7, 64, 100} {
		for _, max := range []int{50, 200, 1000} {
			for size := 0; size <= 210; size++ {
				if chunk == 1 && size > 60 || size > 3*chunk+2 && size%50 > 1 {
					continue
				}
				for _, kind := range []string{"text", "noise"} {
					for _, cmd := range []string{"/send bob /c/out/name.bin", "/send bob /c/out/name.bin some description", "/send bob /c/out/../out/name.bin  two  words "} {
						n++
						if !c.Mine(n) || kind == "noise" && strings.Contains(cmd, "..") {
							continue
						}
						if c.Expired() {
							c.Incomplete("sizes of files")
							return
						}
						send(c, fs, chunk, max, size, kind, cmd)
					}
				}
			}
		}
	}
}

func send(c *mc.Ctx, fs *vfs.FS, chunk, max, size int, kind, cmd string) {
	data := bytes.Repeat([]byte("text "), 50)[:size]
	if kind == "noise" {
		data = noise(size, uint64(size+1))
	}
	what := fmt.Sprintf("chunk %d limit %d size %d %s %q", chunk, max, size, kind, cmd)
	evs := []ev[*fmodel]{{"send", func(m *fmodel) {}}}
	history(c, "send", fs, evs, []int{0}, []string{what}, func() *fmodel {
		vfs.Cur.PutDir("/c/out")
		vfs.Cur.Put("/c/out/name.bin", data)
		a := start(aliceID)
		l := a.links[0]
		p := props(false)
		p[1].Value, p[2].Value = strconv.Itoa(max), strconv.Itoa(chunk)
		l.serve(welcome(p))
		return &fmodel{a: a, l: l, before: outside()}
	}, func(m *fmodel) string {
		m.a.cmd("%s", cmd)
		var got []byte
		announced := 0
		digest := sha256.Sum256(data)
		for i := 0; i < 3+size; i++ {
			mc.Advance(int64(time.Second))
			ms := m.l.poll()
			if len(ms) == 0 {
				break
			}
			for _, s := range m.l.sent(ms) {
				if s.nick != "bob" {
					mc.Fail("sent to %s", s.nick)
				}
				switch v := s.v.(type) {
				case *rpc.ChunkNew:
					announced++
					desc := ""
					if strings.Contains(cmd, "some") {
						desc = "some description"
					}
					if v.Filename != "name.bin" || v.Size != uint64(size) || v.Digest != digest || v.ChunkSize != uint64(chunk) || desc != "" && v.Description != desc {
						mc.Fail("announced %+v", *v)
					}
					if !strings.Contains(cmd, "some") && !strings.Contains(cmd, "two") && v.Description != "" {
						mc.Fail("description %q", v.Description)
					}
				case *rpc.Chunk:
					if announced != 1 || v.Digest != digest || v.Offset != uint64(len(got)) || len(v.Payload) > chunk || len(v.Payload) == 0 {
						mc.Fail("chunk at %d of %d bytes, have %d", v.Offset, len(v.Payload), len(got))
					}
					got = append(got, v.Payload...)
				default:
					mc.Fail("sent %T", s.v)
				}
			}
		}
		m.a.alive(m.l, m.a.peer(bobID), "hello")
		if size > max || size == 0 {
			if announced != 0 {
				mc.Fail("file of %d bytes announced, at most %d may be sent", size, max)
			}
			return "refused"
		}
		if announced != 1 || !bytes.Equal(got, data) {
			mc.Fail("%d of %d bytes sent; announced %d times; %s", len(got), size, announced, m.a.tail())
		}
		if m.a.shown("Send completed") < 1 {
			mc.Fail("transfer reported complete %d times; %v", m.a.shown("Send completed"), m.a.screen()[1:])
		}
		return "sent"
	})
	c.R.Traces++
	c.R.States++
}
