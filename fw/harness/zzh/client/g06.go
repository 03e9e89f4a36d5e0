//go:build go1.22

package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math"
	"runtime"
	"strings"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

const noCrypto = "the encrypted transport is replaced by a transparent one (E01-E03 check the real one)"
const noTerm = "the terminal toolkit's widgets are real, drawing and keyboard input are not"

func init() {
	mc.Register(&mc.Check{ID: "G06", Level: "exploration", Run: checkG06,
		Rule: "a message counts as a distinct case when the client answers it differently on its console", Assumptions: []string{noCrypto, noTerm}})
}

// grid is a client with groups in every state.
func gridFS() *vfs.FS {
	fs := baseFS.Clone()
	g := func(n string, gen uint64, ids ...*zkidentity.FullIdentity) {
		putGroup(fs, "alice", n, gen, ids...)
	}
	g("own", 5, aliceID, bobID, carolID)
	g("bobs", 5, bobID, aliceID, carolID)
	g("part", 0, bobID)
	g("empty", 0)
	return fs
}

func ids(l []*zkidentity.FullIdentity) (out [][32]byte) {
	for _, i := range l {
		out = append(out, i.Public.Identity)
	}
	return
}

func putGroup(fs *vfs.FS, nick, n string, gen uint64, l ...*zkidentity.FullIdentity) {
	fs.PutDir(root(nick) + "/groupchat")
	fs.Put(root(nick)+"/groupchat/"+n, xenc(rpc.GroupList{Name: n, Generation: gen, Timestamp: 1500000000, Members: ids(l)}))
}

// payloads lists client commands in all shapes.
func payloads() (out []interface{}) {
	add := func(v ...interface{}) { out = append(out, v...) }
	texts := []string{"", "x", "alice", "ALICE: ping", "x alice", strings.Repeat("y", 300), "a\x00b", "50% %v %s %!", "\x1b[1mcol\x1b[", "\xff\xfe",
		"ɐɐɐɐalice", "ɐalice", "ıııı ALİCE alice", "ŉ alice", "ﬁﬁﬁalice", "ⱥⱥalice", "alic", "alicealice\n\nalice"}
	for _, t := range texts {
		for _, m := range []rpc.MessageMode{rpc.MessageModeNormal, rpc.MessageModeMe, 77} {
			add(rpc.PrivateMessage{Text: t, Mode: m})
			for _, g := range []string{"own", "bobs"} {
				add(rpc.GroupMessage{Name: g, Generation: 5, Message: t, Mode: m})
			}
		}
	}
	names := []string{"own", "bobs", "part", "empty", "nope", "", "../x", "a/b", ".", "..", "bob", "with space", "n\nl", strings.Repeat("n", 300)}
	lists := [][]*zkidentity.FullIdentity{nil, {aliceID}, {bobID}, {bobID, aliceID, carolID, daveID}, {aliceID, bobID}, {bob2ID, aliceID}, {bobID, bobID, aliceID, aliceID}}
	for _, n := range names {
		add(rpc.GroupMessage{Name: n, Message: "m", Generation: 4}, rpc.GroupKill{Name: n, Reason: "r%d"}, rpc.GroupPart{Name: n, Reason: "r%d"},
			rpc.GroupJoin{Name: n, Token: 1, Error: ""}, rpc.GroupJoin{Name: n, Token: math.MaxUint64, Error: "e"})
		for _, ms := range [][]string{nil, {}, {"", "alice", "bob", "zed", "zed"}} {
			add(rpc.GroupInvite{Name: n, Members: ms, Token: 7, Description: "d%d", Expires: -1})
		}
		for _, l := range lists {
			for _, gen := range []uint64{0, 6, math.MaxUint64} {
				gl := rpc.GroupList{Name: n, Generation: gen, Timestamp: -1, Members: ids(l)}
				add(gl)
				if gen == 6 {
					add(rpc.GroupUpdate{Reason: "r", NewGroupList: gl})
				}
				for _, k := range []*zkidentity.FullIdentity{aliceID, bobID, carolID} {
					add(rpc.GroupKick{Member: k.Public.Identity, Reason: "r%d", Parted: gen == 0, NewGroupList: gl})
				}
			}
		}
	}
	for _, n := range []string{"", "f", "../f", "/etc/f", strings.Repeat("n", 300), "a/b", "..", "%d"} {
		for _, sz := range []uint64{0, 1, math.MaxUint64} {
			for _, d := range []byte{0, 1} {
				add(rpc.ChunkNew{Size: sz, ChunkSize: sz, Filename: n, Description: n, MIME: n, Digest: [32]byte{d}})
			}
		}
	}
	for _, o := range []uint64{0, 1, math.MaxUint64} {
		for _, d := range []byte{0, 1} {
			for _, p := range [][]byte{nil, {1}} {
				add(rpc.Chunk{Digest: [32]byte{d}, Offset: o, Payload: p})
			}
		}
	}
	for _, j := range []string{"", rpc.CRPCJanitorDeleted, "x"} {
		add(rpc.JanitorMessage{Command: j, Reason: "%d\x1b["})
	}
	return
}

func zl(b []byte) []byte {
	var bb bytes.Buffer
	w := zlib.NewWriter(&bb)
	w.Write(b)
	w.Close()
	return bb.Bytes()
}

// raws lists plaintexts inside the ratchet that no well behaved client sends.
func raws() (out [][]byte) {
	pm := xenc(rpc.PrivateMessage{Text: "raw text"})
	gl := xenc(rpc.GroupList{Name: "bobs", Generation: 6, Members: ids([]*zkidentity.FullIdentity{bobID, aliceID})})
	cn := xenc(rpc.ChunkNew{Size: 1, Filename: "f", Digest: [32]byte{3}})
	cmds := []string{"", "bogus", rpc.CRPCCmdPrivateMessage, rpc.CRPCCmdGroupInvite, rpc.CRPCCmdGroupJoin, rpc.CRPCCmdGroupList, rpc.CRPCCmdGroupUpdate,
		rpc.CRPCCmdGroupMessage, rpc.CRPCCmdGroupPart, rpc.CRPCCmdGroupKill, rpc.CRPCCmdGroupKick, rpc.CRPCCmdChunkNew, rpc.CRPCCmdChunk, rpc.CRPCCmdJanitorMessage}
	whole := append(xenc(rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage}), pm...)
	for i := range whole {
		out = append(out, whole[:i])
	}
	for _, cmd := range cmds {
		for _, comp := range []string{rpc.CRPCCompNone, rpc.CRPCCompZLIB, "bogus", "gzip"} {
			h := xenc(rpc.CRPC{Command: cmd, Compression: comp})
			for _, body := range [][]byte{nil, pm, gl, cn, zl(pm), zl(gl), zl(cn), zl(nil), {0x78}, {0x78, 0x9c}, bytes.Repeat([]byte{0xff}, 64), bytes.Repeat([]byte{0}, 64)} {
				out = append(out, append(append([]byte(nil), h...), body...))
			}
		}
	}
	h := xenc(rpc.CRPC{Command: rpc.CRPCCmdPrivateMessage, Compression: rpc.CRPCCompZLIB})
	z := zl(pm)
	for i := range z {
		out = append(out, append(append([]byte(nil), h...), z[:i]...))
		f := append([]byte(nil), z...)
		f[i] ^= 0x41
		out = append(out, append(append([]byte(nil), h...), f...))
	}
	return
}

// claims lists messages that claim to contain far more than they do, or
// decompress to far more.
func claims() (out [][]byte) {
	const n = 80 << 20
	for _, comp := range []string{rpc.CRPCCompNone, rpc.CRPCCompZLIB} {
		add := func(cmd string, body ...byte) {
			if comp == rpc.CRPCCompZLIB {
				body = zl(body)
			}
			out = append(out, append(xenc(rpc.CRPC{Command: cmd, Compression: comp}), body...))
		}
		l := xenc(uint32(n))
		few := xenc(uint32(n / 16))
		add(rpc.CRPCCmdPrivateMessage, l...)
		add(rpc.CRPCCmdGroupInvite, append(xenc("n"), few...)...)
		add(rpc.CRPCCmdGroupList, append(xenc("bobs", uint64(6), int64(0)), few...)...)
		add(rpc.CRPCCmdGroupUpdate, append(xenc("r", "bobs", uint64(6), int64(0)), few...)...)
		add(rpc.CRPCCmdGroupKick, append(xenc(carolID.Public.Identity, "r", false, "bobs", uint64(6), int64(0)), few...)...)
		for _, c := range []string{rpc.CRPCCmdGroupJoin, rpc.CRPCCmdGroupMessage, rpc.CRPCCmdGroupPart, rpc.CRPCCmdGroupKill, rpc.CRPCCmdJanitorMessage} {
			add(c, l...)
		}
		add(rpc.CRPCCmdChunkNew, append(xenc(uint64(1), uint64(1)), l...)...)
		add(rpc.CRPCCmdChunk, append(xenc([32]byte{}, uint64(0)), l...)...)
	}
	out = append(out, xenc(uint64(0), uint32(n)))
	// bombs
	add := func(cmd string, body []byte) {
		out = append(out, append(xenc(rpc.CRPC{Command: cmd, Compression: rpc.CRPCCompZLIB}), zl(body)...))
	}
	add(rpc.CRPCCmdPrivateMessage, xenc(rpc.PrivateMessage{Text: strings.Repeat("x", n)}))
	var ms []string
	for i := 0; i < n/200000; i++ {
		ms = append(ms, strings.Repeat("x", 200000))
	}
	add(rpc.CRPCCmdGroupInvite, xenc(rpc.GroupInvite{Name: "bomb", Members: ms}))
	return
}

var verdict string

func short(v interface{}) string {
	s := fmt.Sprintf("%T%+v", v, v)
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// probe checks that the client got over whatever was sent to it.
func probe(a *cli, l *link) {
	if l.dead() {
		mc.Fail("client dropped the connection; %s", a.tail())
	}
	a.alive(l, a.peer(carolID), "still here")
	before := len(l.got)
	verdict = a.tail()
	a.cmd("/m dave yo")
	n := 0
	for _, m := range l.poll() {
		if m.m.Command == rpc.TaggedCmdCache {
			var c rpc.Cache
			m.into(&c)
			if c.To == daveID.Public.Identity {
				n++
			}
		}
	}
	if n != 1 {
		mc.Fail("message command afterwards sent %d messages (%d before); %s", n, before, a.tail())
	}
}

func checkG06(c *mc.Ctx) {
	world()
	fs := gridFS()
	n := 0
	try := func(name string, body func()) {
		n++
		if !c.Mine(n) || c.Expired() {
			return
		}
		setupOn(fs)()
		if f := mc.RunOnce(body); f != "" {
			c.Violate("grid:"+strings.SplitN(f, "\n", 2)[0], name, "%s: %s", name, f)
			c.Eval("bad")
			return
		}
		c.Eval(verdict)
	}
	// lengths that are claimed but not there; do this first because the
	// real thing would take this machine down
	small := true
	for i, v := range claims() {
		v := v
		setupOn(fs)()
		if f := mc.RunOnce(func() {
			a, l := boot(aliceID, false)
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			l.push(bobID, a.peer(bobID).sealRaw(v))
			runtime.ReadMemStats(&m1)
			if d := (m1.TotalAlloc - m0.TotalAlloc) >> 20; d >= 64 {
				mc.Fail("a message of %d bytes made the client allocate %d MiB", len(v), d)
			}
			probe(a, l)
		}); f != "" {
			small = false
			c.Violate("claim:"+strings.SplitN(f, "\n", 2)[0], fmt.Sprintf("claim %d %x", i, v), "claimed length %d: %s", i, f)
		}
		if i == 0 {
			c.Eval("claims")
		}
	}
	if !small {
		return
	}
	for _, from := range []*zkidentity.FullIdentity{bobID, daveID} {
		for i, v := range payloads() {
			from, v := from, v
			// two of a kind as well
			try(fmt.Sprintf("%s %d %s", from.Public.Nick, i, short(v)), func() {
				a, l := boot(aliceID, false)
				l.tell(a.peer(from), v)
				l.tell(a.peer(from), v)
				probe(a, l)
			})
		}
		for i, b := range raws() {
			from, b := from, b
			try(fmt.Sprintf("%s raw %d %x", from.Public.Nick, i, b), func() {
				a, l := boot(aliceID, false)
				l.push(from, a.peer(from).sealRaw(b))
				probe(a, l)
			})
		}
	}
	// from anybody, not even encrypted
	zero := &zkidentity.FullIdentity{}
	for _, dir := range []bool{false, true} {
		for _, from := range []*zkidentity.FullIdentity{bobID, bob2ID, aliceID, zero} {
			for _, clear := range []bool{false, true} {
				for _, b := range [][]byte{nil, {}, {1}, make([]byte, 24), make([]byte, 40), make([]byte, 63), make([]byte, 64), make([]byte, 200), make([]byte, 1046), make([]byte, 1047), make([]byte, 1071), make([]byte, 1087), make([]byte, 1500),
					xenc(rpc.ProxyCmd{Command: rpc.ProxyCmdResetRatchet, Message: "%d"}), xenc(rpc.ProxyCmd{Command: 99}), xenc("x")} {
					dir, from, clear, b := dir, from, clear, b
					try(fmt.Sprintf("unknown dir=%v from=%s clear=%v %d %x", dir, from.Public.Nick, clear, len(b), b), func() {
						a, l := boot(aliceID, dir)
						for i := 0; i < 2; i++ {
							l.pushMsg(rpc.Message{Command: rpc.TaggedCmdPush, Tag: 3, Cleartext: clear}, from, b)
						}
						probe(a, l)
					})
				}
			}
		}
	}
	c.Note("inputs", n)
}
