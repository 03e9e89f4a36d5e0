//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/inidb"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

const dbFile = "/db/test.ini"

type tabs map[string]map[string]string

func (t tabs) clone() tabs {
	n := tabs{}
	for k, v := range t {
		m := map[string]string{}
		for a, b := range v {
			m[a] = b
		}
		n[k] = m
	}
	return n
}

func (t tabs) String() string {
	var l []string
	for k, v := range t {
		var r []string
		for a, b := range v {
			r = append(r, fmt.Sprintf("%q=%q", a, b))
		}
		sort.Strings(r)
		l = append(l, fmt.Sprintf("%q{%s}", k, strings.Join(r, ",")))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func dbTabs(d *inidb.INIDB) tabs {
	t := tabs{}
	for _, n := range d.Tables() {
		t[n] = d.Records(n)
	}
	return t
}

type dbop struct {
	kind       string
	t, k, v    string
	desc       bool
}

func (o dbop) String() string {
	switch o.kind {
	case "set":
		return fmt.Sprintf("Set(%q,%q,%q)", o.t, o.k, o.v)
	case "del":
		return fmt.Sprintf("Del(%q,%q)", o.t, o.k)
	case "newtable", "deltable":
		return fmt.Sprintf("%s(%q)", o.kind, o.t)
	case "save":
		return fmt.Sprintf("Save(desc=%v)", o.desc)
	}
	return o.kind
}

// dbSim runs operations against the real database and the model.
type dbSim struct {
	d         *inidb.INIDB
	mem, disk tabs
	depth     int
	old       []string // backups, oldest first
	loaded    bool     // the file was there when the database was opened
}

func newSim(depth int) *dbSim {
	s := &dbSim{depth: depth}
	var err error
	s.d, err = inidb.New(dbFile, true, depth)
	if !errors.Is(err, inidb.ErrCreated) {
		mc.Fail("creating a database: %v", err)
	}
	s.mem = tabs{"": {}}
	s.disk = tabs{"": {}}
	return s
}

// odd reports whether a record is outside of what the format can hold; the
// database may refuse those.
func odd(s string) bool { return strings.ContainsAny(s, "\n\r=#;") || strings.TrimSpace(s) != s }

func (s *dbSim) do(o dbop) {
	switch o.kind {
	case "set":
		err := s.d.Set(o.t, o.k, o.v)
		_, ok := s.mem[o.t]
		if !ok {
			if !errors.Is(err, inidb.ErrNotFound) {
				mc.Fail("%v in a missing table: %v", o, err)
			}
			return
		}
		if err != nil {
			if !odd(o.k) && !strings.ContainsAny(o.v, "\n\r") && o.k != "" && !odd(o.t) {
				mc.Fail("%v failed: %v", o, err)
			}
			return
		}
		s.mem[o.t][o.k] = o.v
	case "del":
		err := s.d.Del(o.t, o.k)
		if _, ok := s.mem[o.t]; !ok {
			if !errors.Is(err, inidb.ErrNotFound) {
				mc.Fail("%v in a missing table: %v", o, err)
			}
			return
		}
		if err != nil {
			mc.Fail("%v failed: %v", o, err)
		}
		delete(s.mem[o.t], o.k)
	case "newtable":
		s.d.NewTable(o.t)
		if s.mem[o.t] == nil {
			s.mem[o.t] = map[string]string{}
		}
	case "deltable":
		err := s.d.DelTable(o.t)
		if _, ok := s.mem[o.t]; !ok {
			if !errors.Is(err, inidb.ErrNotFound) {
				mc.Fail("%v of a missing table: %v", o, err)
			}
			return
		}
		if err != nil {
			mc.Fail("%v failed: %v", o, err)
		}
		delete(s.mem, o.t)
	case "save":
		prev, _ := vfs.Cur.Read(dbFile)
		defer s.backups(string(prev))
		mc.MapDesc = o.desc
		err := s.d.Save()
		mc.MapDesc = false
		if err != nil {
			mc.Fail("%v failed: %v", o, err)
		}
		s.disk = s.mem.clone()
	case "reopen":
		d, err := inidb.New(dbFile, false, s.depth)
		if err != nil {
			mc.Fail("reopen failed: %v", err)
		}
		s.d = d
		s.loaded = true
		s.mem = s.disk.clone()
		if s.mem[""] == nil {
			s.mem[""] = map[string]string{}
		}
		// tables that cannot be named in the file may vanish when empty
		for t, r := range s.mem {
			if strings.ContainsAny(t, "=\n\r") && len(r) == 0 {
				delete(s.mem, t)
			}
		}
	}
}

// backups follows the copies of earlier versions.
func (s *dbSim) backups(prev string) {
	now := map[string]bool{}
	var added []string
	for _, f := range vfs.Cur.List("/db") {
		if f == "test.ini" {
			continue
		}
		now[f] = true
		if !has(s.old, f) {
			added = append(added, f)
		}
	}
	var kept []string
	for _, f := range s.old {
		if now[f] {
			kept = append(kept, f)
		} else if len(kept) > 0 {
			mc.Fail("backup %s is removed, the older %s is kept", f, kept[0])
		}
	}
	if len(added) > 1 {
		mc.Fail("one save, several backups: %v", added)
	}
	for _, f := range added {
		if b, _ := vfs.Cur.Read("/db/" + f); string(b) != prev {
			mc.Fail("backup is not the previous version: %q, was %q", b, prev)
		}
	}
	if len(added) == 0 && len(kept) < len(s.old) && s.depth != 0 {
		mc.Fail("backup removed without a new one")
	}
	s.old = append(kept, added...)
}

func (s *dbSim) check(what string) {
	got := dbTabs(s.d)
	if got.String() != s.mem.String() {
		mc.Fail("%s: database holds %v, want %v", what, got, s.mem)
	}
	// what was returned is the caller's own
	for _, r := range got {
		r["scratch"] = "x"
		delete(r, "a")
	}
	if again := dbTabs(s.d); again.String() != s.mem.String() {
		mc.Fail("%s: changing returned records changes the database: %v, want %v", what, again, s.mem)
	}
	for _, t := range []string{"", "t1", "t2", "nope"} {
		for _, k := range []string{"a", "b", "c"} {
			v, err := s.d.Get(t, k)
			w, ok := s.mem[t][k]
			if ok && (err != nil || v != w) {
				mc.Fail("%s: Get(%q,%q) = %q, %v; want %q", what, t, k, v, err, w)
			}
			if !ok && !errors.Is(err, inidb.ErrNotFound) {
				mc.Fail("%s: Get(%q,%q) = %q, %v; want not found", what, t, k, v, err)
			}
		}
	}
	// backups are bounded and each is a complete database
	n := 0
	for _, f := range vfs.Cur.List("/db") {
		if f == "test.ini" {
			continue
		}
		n++
		if !strings.HasPrefix(f, "test.ini.") {
			mc.Fail("%s: stray file %s left behind", what, f)
		}
	}
	if s.depth >= 0 && n > s.depth {
		mc.Fail("%s: %d backups kept, limit is %d", what, n, s.depth)
	}
}

func dbAlphabet() []dbop {
	return []dbop{
		{kind: "set", t: "", k: "a", v: "1"},
		{kind: "save"},
		{kind: "reopen"},
		{kind: "newtable", t: "t1"},
		{kind: "set", t: "t1", k: "a", v: "x=y z"},
		{kind: "save", desc: true},
		{kind: "del", t: "", k: "a"},
		{kind: "del", t: "t1", k: "a"},
		{kind: "deltable", t: "t1"},
		{kind: "set", t: "t1", k: "b", v: ""},
		{kind: "newtable", t: "t2"},
		{kind: "set", t: "t2", k: "a", v: "[t1]"},
		{kind: "deltable", t: ""},
		{kind: "set", t: "", k: "b", v: "# ;"},
	}
}

func dbWeird() []dbop {
	l := []dbop{{kind: "set", t: "", k: "c", v: "keep"}, {kind: "newtable", t: "t1"}, {kind: "set", t: "t1", k: "c", v: "keep"}, {kind: "save"}, {kind: "reopen"}}
	for _, v := range []string{"a\nb = 2", "a\n[t1]\nb = 2", "a\rb", "\n"} {
		l = append(l, dbop{kind: "set", t: "", k: "a", v: v}, dbop{kind: "set", t: "t1", k: "a", v: v})
	}
	for _, k := range []string{"a=b", "a\nb", "", "#a", ";a", "[a]", "a]", " "} {
		l = append(l, dbop{kind: "set", t: "", k: k, v: "1"}, dbop{kind: "set", t: "t1", k: k, v: "1"})
	}
	for _, t := range []string{"x=y", "x]\n[z", "x\nb = 2", "[x]", "#x"} {
		l = append(l, dbop{kind: "newtable", t: t}, dbop{kind: "set", t: t, k: "a", v: "1"})
	}
	return l
}

func seqString(a []dbop, s []int) string {
	var l []string
	for _, i := range s {
		l = append(l, a[i].String())
	}
	return strings.Join(l, "; ")
}

func checkC01(c *mc.Ctx) {
	run := func(al []dbop, depth, keep int, weird bool) {
		seqs(c, len(al), depth, func(s []int) bool {
			fresh()
			var sim *dbSim
			final := ""
			ok := c.Try("sequence", seqString(al, s), func() {
				sim = newSim(keep)
				for i, k := range s {
					sim.do(al[k])
					sim.check(fmt.Sprintf("after %s", seqString(al, s[:i+1])))
				}
				// whatever the history, saving and reading back is lossless
				sim.do(dbop{kind: "save", desc: len(s)%2 == 1})
				sim.do(dbop{kind: "reopen"})
				sim.check(fmt.Sprintf("after %s; Save; reopen", seqString(al, s)))
				final = sim.mem.String()
			})
			c.R.Transitions += len(s) + 2
			c.Eval(final)
			c.Sample(seqString(al, s))
			return ok
		})
	}
	run(dbAlphabet(), c.Pick(5, 6), 2, false)
	run(dbAlphabet(), c.Pick(4, 5), 1, false)
	run(dbWeird(), c.Pick(3, 3), -1, true)
	c.R.States = len(c.R.Distinct)
}

// checkC02: a save is atomic with respect to crashes, power loss and I/O
// errors.
func checkC02(c *mc.Ctx) {
	al := dbAlphabet()
	depth := c.Pick(5, 6)
	last := map[string]bool{}
	seqs(c, len(al), depth, func(s []int) bool {
		// only histories that end in an effective save
		if len(s) == 0 || al[s[len(s)-1]].kind != "save" || al[s[len(s)-1]].desc {
			return true
		}
		for keep := -1; keep <= 1; keep += 2 {
			key := seqString(al, s)
			fs := fresh()
			var sim *dbSim
			if m := mc.Guard(func() {
				sim = newSim(keep)
				for _, k := range s[:len(s)-1] {
					sim.do(al[k])
				}
			}); m != "" {
				c.Violate("history", key, "%s: %s", key, m)
				return false
			}
			old := sim.disk.clone()
			want := sim.mem.clone()
			base := fs.Clone()
			st := sim.disk.String() + "->" + sim.mem.String() + fmt.Sprint(len(fs.List("/db")), sim.loaded)
			if last[st] {
				continue // same disk and memory state already done by this worker
			}
			last[st] = true
			fs.Log = nil
			if m := mc.Guard(func() { sim.do(dbop{kind: "save"}) }); m != "" {
				c.Violate("save", key, "%s: %s", key, m)
				return false
			}
			norm := func(t tabs) string {
				u := t.clone()
				if u[""] == nil {
					u[""] = map[string]string{}
				}
				return u.String()
			}
			log := fs.Log
			bad := ""
			n := vfs.Crashes(base, log, 0, true, func(cr vfs.Crash) bool {
				vfs.Cur = cr.FS
				m := mc.Guard(func() {
					d, err := inidb.New(dbFile, true, keep)
					if err != nil {
						mc.Fail("database cannot be opened: %v", err)
					}
					got := dbTabs(d).String()
					if got != norm(old) && got != norm(want) {
						mc.Fail("database holds %v; before the save %v, after %v", got, old, want)
					}
					if cr.After == len(log) && got != norm(want) {
						mc.Fail("completed save lost: %v, want %v", got, want)
					}
					c.Eval(fmt.Sprintf("%s %v", st, got == norm(want)))
					// and it must still work
					if err := d.Set("", "zz", "1"); err != nil {
						mc.Fail("set after recovery: %v", err)
					}
					if err := d.Save(); err != nil {
						mc.Fail("save after recovery: %v", err)
					}
					d, err = inidb.New(dbFile, false, keep)
					if err != nil {
						mc.Fail("open after recovery: %v", err)
					}
					if v, err := d.Get("", "zz"); err != nil || v != "1" {
						mc.Fail("record written after recovery: %q %v", v, err)
					}
				})
				if m != "" {
					bad = fmt.Sprintf("%s; %v (%v): %s", key, cr, log, m)
					return false
				}
				return true
			})
			c.R.Traces += n
			if bad != "" {
				c.Violate("crash", key, "%s", bad)
				return false
			}
			// I/O errors
			okf := true
			faults(c, !c.Quick() && len(s) <= 3, func(p *faultPlan) bool {
				fs := fresh()
				var sim *dbSim
				m := mc.Guard(func() {
					sim = newSim(keep)
					for _, k := range s[:len(s)-1] {
						sim.do(al[k])
					}
				})
				if m != "" {
					return false
				}
				p.install(fs)
				err := sim.d.Save()
				fs.Fault, fs.Short = nil, nil
				if len(p.hit) == 0 && err != nil {
					c.Violate("fault", key, "%s: save failed without a fault: %v", key, err)
					okf = false
					return false
				}
				m = mc.Guard(func() {
					d, err2 := inidb.New(dbFile, true, keep)
					if err2 != nil {
						mc.Fail("database cannot be opened: %v", err2)
					}
					got := dbTabs(d).String()
					if err == nil && got != norm(want) {
						mc.Fail("save reported success but the database holds %v, want %v", got, want)
					}
					if err != nil && got != norm(old) && got != norm(want) {
						mc.Fail("save failed (%v) and the database holds %v; before %v, after %v", err, got, old, want)
					}
					c.Eval(fmt.Sprintf("fault %s %v %v", st, err == nil, got == norm(want)))
					// a retry succeeds and nothing in memory was lost
					if got := dbTabs(sim.d).String(); got != want.String() {
						mc.Fail("failed save changed memory: %v, want %v", got, want)
					}
					if err3 := sim.d.Save(); err3 != nil {
						mc.Fail("retry of a failed save: %v", err3)
					}
					d, err2 = inidb.New(dbFile, true, keep)
					if err2 != nil {
						mc.Fail("database cannot be opened after a retry: %v", err2)
					}
					if got := dbTabs(d).String(); got != norm(want) {
						mc.Fail("after a retry the database holds %v, want %v", got, want)
					}
				})
				if m != "" {
					c.Violate("fault", key, "%s; %v: %s", key, p, m)
					okf = false
					return false
				}
				return true
			})
			if !okf {
				return false
			}
			c.R.Transitions += len(log)
			c.Sample(map[string]interface{}{"history": key, "log": fmt.Sprint(log), "crash_states": n})
		}
		return !c.Expired()
	})
	c.R.States = c.R.Evals
}

func init() {
	mc.Register(&mc.Check{ID: "C01", Level: "model_checking", Run: checkC01,
		Rule: "every operation sequence up to the depth over the alphabet, in both map iteration orders, compared with a map of maps after each step; distinct = distinct final contents",
		Assumptions: []string{"leading and trailing white space of keys, values and table names is not significant (the file format trims it)"}})
	mc.Register(&mc.Check{ID: "C02", Level: "fault_enumeration", Run: checkC02,
		Rule: "every history ending in a save x (every crash point, every torn write, every subset of unsynced data, every failing file system call); distinct = (state before, state after, which survived)",
		Assumptions: []string{"metadata operations (rename, link, create, remove) reach the disk in order", "data that was not synced may be lost, kept or cut in half by a power loss"}})
}
