//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

// ev is one event of a history.
type ev[M any] struct {
	name string
	do   func(m M)
}

// histories runs every sequence of events of the given length, each in a world
// of its own; start makes the world, end looks at it once more.  The class of
// a sequence is what end returns.
func histories[M any](c *mc.Ctx, key string, fs *vfs.FS, evs []ev[M], depth int, start func() M, end func(m M) string) {
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(evs)
	}
	done := 0
	for i := 0; i < n; i++ {
		if !c.Mine(i) {
			continue
		}
		if c.Expired() {
			c.Incomplete(fmt.Sprintf("%s: %d of %d histories of length %d", key, done*c.Workers, n, depth))
			break
		}
		var seq []int
		var names []string
		for j, k := 0, i; j < depth; j++ {
			seq = append(seq, k%len(evs))
			names = append(names, evs[k%len(evs)].name)
			k /= len(evs)
		}
		history(c, key, fs, evs, seq, names, start, end)
		done++
	}
	c.R.States += done
	c.R.Transitions += done * depth
	c.R.Traces += done
}

func history[M any](c *mc.Ctx, key string, fs *vfs.FS, evs []ev[M], seq []int, names []string, start func() M, end func(m M) string) {
	setupOn(fs)()
	at := "start"
	class := ""
	if f := mc.RunOnce(func() {
		m := start()
		for _, k := range seq {
			at = evs[k].name
			evs[k].do(m)
		}
		at = "end"
		class = end(m)
	}); f != "" {
		first := strings.SplitN(f, "\n", 2)[0]
		k := key + ":" + at + ":" + strip(first)
		c.Violate(k, strings.Join(names, ", "), "%s: after [%s] at %s: %s", key, strings.Join(names, "; "), at, first)
		class = "bad"
	}
	c.Eval(key + " " + class)
}

// strip removes digits, which often differ between histories that fail the
// same way.
func strip(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= '0' && b[i] <= '9' {
			b[i] = '#'
		}
	}
	if len(b) > 100 {
		b = b[:100]
	}
	return string(b)
}

var byNick = map[string]*zkidentity.FullIdentity{}

func nicks(l [][32]byte) (out []string) {
	for _, m := range l {
		n := fmt.Sprintf("%x", m[:4])
		for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID, daveID, bob2ID} {
			if i != nil && i.Public.Identity == m {
				n = i.Public.Nick
				if i == bob2ID {
					n = "bob2"
				}
			}
		}
		out = append(out, n)
	}
	return
}

func idOf(n string) *zkidentity.FullIdentity {
	switch n {
	case "alice":
		return aliceID
	case "bob":
		return bobID
	case "carol":
		return carolID
	case "dave":
		return daveID
	case "bob2":
		return bob2ID
	}
	panic(n)
}

func idsOf(l ...string) (out [][32]byte) {
	for _, n := range l {
		out = append(out, idOf(n).Public.Identity)
	}
	return
}

// list joins a member list, administrator first, the others sorted.
func list(l []string) string {
	if len(l) == 0 {
		return ""
	}
	r := append([]string(nil), l...)
	sort.Strings(r[1:])
	return strings.Join(r, ",")
}

func has(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func without(l []string, n string) (out []string) {
	for _, x := range l {
		if x != n {
			out = append(out, x)
		}
	}
	return
}

// same compares two multisets of strings.
func same(what string, got, want []string) {
	g, w := append([]string(nil), got...), append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		mc.Fail("%s: got [%s] want [%s]", what, strings.Join(g, " | "), strings.Join(w, " | "))
	}
}

// reboot ends a client's process and starts it again from the disk.
func (c *cli) reboot(dir bool) (*cli, *link) {
	c.quit()
	n, l := boot(c.id, dir)
	n.peers = c.peers
	return n, l
}

// quit ends the process at once.
func (c *cli) quit() {
	c.cmd("/quit force")
	if !c.done {
		mc.Fail("client %s does not quit", c.nick)
	}
	c.kill()
}

// snapshot returns the ratchets of a client's peers.
func (c *cli) snapshot() map[string][]byte {
	m := map[string][]byte{}
	for _, i := range []*zkidentity.FullIdentity{aliceID, bobID, carolID, daveID, bob2ID} {
		if p := c.peer(i); p.r != nil {
			m[hexID(i)] = rstate(p.r)
		}
	}
	return m
}

// crashedAfter is the number of disk operations before the crash.
var crashedAfter int

// crashes runs an operation of a client that is online and starts the client
// again from every state of the disk that a crash during the operation can
// leave.
func crashes(c *mc.Ctx, key string, fs *vfs.FS, tears int, power bool, run func(a *cli, l *link), after func(a *cli, l *link, full bool)) {
	setupOn(fs)()
	var base *vfs.FS
	var states map[string][]byte
	if f := mc.RunOnce(func() {
		a, l := boot(aliceID, false)
		base = vfs.Cur.Clone()
		vfs.Cur.Log = nil
		run(a, l)
		states = a.snapshot()
	}); f != "" {
		c.Violate(key+":run", key, "%s: %s", key, f)
		return
	}
	log := vfs.Cur.Log
	n := 0
	vfs.Crashes(base, log, tears, power, func(cr vfs.Crash) bool {
		n++
		if !c.Mine(n) {
			return true
		}
		setupOn(cr.FS)()
		f := mc.RunOnce(func() {
			a := start(aliceID)
			a.states = states
			crashedAfter = cr.After
			l := a.online(false)
			after(a, l, cr.After == len(log) && cr.Lost == "")
		})
		c.R.States++
		c.R.Traces++
		next := "end"
		if cr.After < len(log) {
			next = fmt.Sprint(log[cr.After])
		}
		c.Eval(fmt.Sprintf("%s %d", key, cr.After))
		if f != "" {
			first := strings.SplitN(f, "\n", 2)[0]
			c.Violate(key+":"+strip(first), cr.String(), "%s: %v, next %s: %s", key, cr, next, first)
		}
		if c.Expired() {
			c.Incomplete(key + " crash points")
			return false
		}
		return true
	})
}
