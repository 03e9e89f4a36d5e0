//go:build go1.22

package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/companyzero/zkc/debug"
	"github.com/companyzero/zkc/tagstack"
	"github.com/companyzero/zkc/zkclient/addressbook"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/companyzero/zkc/zz/vrand"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// ---- identities

func f01(c *mc.Ctx) {
	fresh()
	mk := func(seed, name, nick string) *zkidentity.FullIdentity {
		seedRand(seed)
		defer func() { vrand.Hook = nil }()
		id, err := zkidentity.New(name, nick)
		if err != nil {
			c.Violate("new", name, "New(%q,%q): %v", name, nick, err)
			return nil
		}
		return id
	}
	a, b := mk("F01a", "Alice", "alice"), mk("F01b", "Bob", "bob")
	if a == nil || b == nil {
		return
	}
	if a.Public.Identity != sha256.Sum256(a.Public.Key[:]) {
		c.Violate("handle", nil, "the identity is not the hash of the key")
	}
	// round trips, including unusual texts
	for i, n := range []string{"", "a", "\x00", "ä\xff\n", strings.Repeat("x", 300)} {
		if !c.Mine(i) {
			continue
		}
		id := mk(fmt.Sprint("rt", i), n, n+"y")
		if id == nil {
			continue
		}
		p, err := id.Public.Marshal()
		var q *zkidentity.PublicIdentity
		if err == nil {
			q, err = zkidentity.UnmarshalPublicIdentity(p)
		}
		if err != nil || *q != id.Public {
			c.Violate("roundtrip", n, "public identity named %q does not survive Marshal: %v", n, err)
		}
		f, err := id.Marshal()
		var g *zkidentity.FullIdentity
		if err == nil {
			g, err = zkidentity.UnmarshalFullIdentity(f)
		}
		if err != nil || *g != *id {
			c.Violate("roundtrip", n, "full identity named %q does not survive Marshal: %v", n, err)
		}
		c.Eval("round trip")
		for l := 0; l < len(f); l += 1 + l/50 {
			if m := mc.Guard(func() { zkidentity.UnmarshalFullIdentity(f[:l]) }); m != "" {
				c.Violate("panic", l, "truncated full identity: %s", m)
			}
		}
		for l := 0; l < len(p); l++ {
			var err error
			if m := mc.Guard(func() { _, err = zkidentity.UnmarshalPublicIdentity(p[:l]) }); m != "" {
				c.Violate("panic", l, "truncated identity: %s", m)
			} else if err == nil {
				c.Violate("truncated", l, "identity cut to %d of %d bytes accepted", l, len(p))
			}
			c.Eval("truncated")
		}
	}
	enc, _ := a.Public.Marshal()
	for bit := 0; bit < len(enc)*8; bit++ {
		if !c.Mine(bit) {
			continue
		}
		x := append([]byte(nil), enc...)
		x[bit/8] ^= 1 << (bit % 8)
		var q *zkidentity.PublicIdentity
		var err error
		if m := mc.Guard(func() { q, err = zkidentity.UnmarshalPublicIdentity(x) }); m != "" {
			c.Violate("panic", bit, "identity with bit %d flipped: %s", bit, m)
			continue
		}
		if err == nil && *q != a.Public {
			c.Violate("forged:bit", bit, "identity with bit %d flipped accepted as %v/%v", bit, q.Name, q.Nick)
		}
		c.Eval(fmt.Sprintf("bit flip refused=%v", err != nil))
	}
	// every combination of fields of two identities, with the original
	// signature of either and resigned by an attacker owning b's keys
	fields := []func(dst, src *zkidentity.PublicIdentity){
		func(d, s *zkidentity.PublicIdentity) { d.Name = s.Name },
		func(d, s *zkidentity.PublicIdentity) { d.Nick = s.Nick },
		func(d, s *zkidentity.PublicIdentity) { d.SigKey = s.SigKey },
		func(d, s *zkidentity.PublicIdentity) { d.Key = s.Key },
		func(d, s *zkidentity.PublicIdentity) { d.Identity = s.Identity },
		func(d, s *zkidentity.PublicIdentity) { d.Digest = s.Digest },
		func(d, s *zkidentity.PublicIdentity) { d.Signature = s.Signature },
	}
	for m := 0; m < 1<<len(fields); m++ {
		for resign := 0; resign < 2; resign++ {
			if !c.Mine(m) {
				continue
			}
			p := b.Public
			for i, f := range fields {
				if m&(1<<i) != 0 {
					f(&p, &a.Public)
				}
			}
			if resign == 1 {
				d := sha256.New()
				d.Write([]byte(p.Name))
				d.Write([]byte(p.Nick))
				d.Write(p.SigKey[:])
				d.Write(p.Key[:])
				d.Write(p.Identity[:])
				copy(p.Digest[:], d.Sum(nil))
				copy(p.Signature[:], ed25519.Sign(b.PrivateSigKey[:], p.Digest[:]))
			}
			x, _ := p.Marshal()
			_, err := zkidentity.UnmarshalPublicIdentity(x)
			genuine := p == a.Public || p == b.Public
			own := resign == 1 && p.SigKey == b.Public.SigKey
			consistent := p.Identity == sha256.Sum256(p.Key[:])
			switch {
			case err == nil && !genuine && !own:
				c.Violate("forged:fields", m, "identity with fields %07b of another one accepted", m)
			case err == nil && !consistent:
				c.Violate("forged:handle", m, "identity whose handle does not belong to its key accepted (fields %07b, resigned %v)", m, resign)
			case err != nil && (genuine || own && consistent):
				c.Violate("refused", m, "valid identity refused (fields %07b): %v", m, err)
			}
			c.Sample(fmt.Sprintf("fields %07b of another identity, resigned %v: accepted %v", m, resign, err == nil))
			c.Eval(fmt.Sprintf("fields accepted=%v", err == nil))
		}
	}
	// text moved between name and nick
	if c.Worker == 0 {
		all := a.Public.Name + a.Public.Nick
		for i := 0; i <= len(all); i++ {
			p := a.Public
			p.Name, p.Nick = all[:i], all[i:]
			if p.Name == a.Public.Name {
				continue
			}
			if p.Verify() {
				c.Violate("forged:boundary", i, "the signature also covers name %q nick %q", p.Name, p.Nick)
			}
			c.Eval("boundary")
		}
	}
	// message signatures
	msg := []byte("message")
	sig := a.SignMessage(msg)
	if !a.Public.VerifyMessage(msg, sig) {
		c.Violate("sig", nil, "own signature refused")
	}
	if b.Public.VerifyMessage(msg, sig) {
		c.Violate("sig:other", nil, "signature accepted for another identity")
	}
	for bit := 0; bit < (len(msg)+len(sig))*8; bit++ {
		m2, s2 := append([]byte(nil), msg...), sig
		if bit < len(msg)*8 {
			m2[bit/8] ^= 1 << (bit % 8)
		} else {
			s2[bit/8-len(msg)] ^= 1 << (bit % 8)
		}
		if a.Public.VerifyMessage(m2, s2) {
			c.Violate("sig:bit", bit, "signature valid with bit %d flipped", bit)
		}
		c.Eval("signature bit")
	}
	// no text goes with the signature of another
	texts := [][]byte{nil, {0}, []byte("message"), []byte("message\x00"), bytes.Repeat([]byte("m"), 1000)}
	for i, t := range texts {
		for _, id := range []*zkidentity.FullIdentity{a, b} {
			sig := id.SignMessage(t)
			for j, u := range texts {
				for _, by := range []*zkidentity.FullIdentity{a, b} {
					if ok := by.Public.VerifyMessage(u, sig); ok != (i == j && by == id) {
						c.Violate("sig:text", []int{i, j}, "signature of %q accepted for %q: %v", t, u, ok)
					}
					c.Eval("signed text")
				}
			}
			if a.Public.VerifyMessage(t, [64]byte{}) {
				c.Violate("sig:text", i, "empty signature of %q accepted", t)
			}
		}
	}
	// textual handles
	h := a.Public.String()
	for n := 0; n <= 66; n++ {
		s := (h + "00")[:n]
		id, err := zkidentity.String2ID(s)
		if (err == nil) != (n == 64) || err == nil && *id != a.Public.Identity {
			c.Violate("string", s, "String2ID(%q): %v", s, err)
		}
		if id, err := zkidentity.String2ID(strings.ToUpper(s)); n == 64 && (err != nil || *id != a.Public.Identity) {
			c.Violate("string", s, "String2ID(upper case): %v", err)
		}
		c.Eval("handle")
	}
	if _, err := zkidentity.String2ID(h[:63] + "g"); err == nil {
		c.Violate("string", nil, "String2ID accepts non hex")
	}
	if a.Public.Fingerprint() != hex.EncodeToString(a.Public.Identity[:]) || zkidentity.Fingerprint(a.Public.Identity) != h {
		c.Violate("string", nil, "fingerprint does not show the identity")
	}
	_ = xdr.Marshal
}

// ---- tag stack

func f03(c *mc.Ctx) {
	for _, depth := range []int{0, 1, 2, 3} {
		// ops: pop, push oldest outstanding, push newest outstanding
		seqs(c, 3, c.Pick(9, 12), func(s []int) bool {
			if c.Expired() {
				return false
			}
			ts := tagstack.New(depth)
			free := map[uint32]bool{}
			for i := 0; i < depth; i++ {
				free[uint32(i)] = true
			}
			var out []uint32
			for i, o := range s {
				if ts.Depth() != depth {
					c.Violate("depth", s[:i+1], "depth %d instead of %d", ts.Depth(), depth)
					return false
				}
				if o == 0 {
					x, err := ts.Pop()
					if len(free) == 0 {
						if !errors.Is(err, tagstack.ErrUnderflow) {
							c.Violate("underflow", s[:i+1], "Pop on an empty stack of depth %d: %v %v", depth, x, err)
							return false
						}
						continue
					}
					if err != nil || !free[x] {
						c.Violate("pop", s[:i+1], "Pop hands out %d (%v) which is in use or unknown", x, err)
						return false
					}
					delete(free, x)
					out = append(out, x)
					continue
				}
				if len(out) == 0 {
					if err := ts.Push(99); !errors.Is(err, tagstack.ErrOverflow) {
						c.Violate("overflow", s[:i+1], "Push on a full stack of depth %d: %v", depth, err)
						return false
					}
					continue
				}
				k := 0
				if o == 2 {
					k = len(out) - 1
				}
				x := out[k]
				out = append(out[:k:k], out[k+1:]...)
				if err := ts.Push(x); err != nil {
					c.Violate("push", s[:i+1], "tag %d cannot be returned: %v", x, err)
					return false
				}
				free[x] = true
			}
			c.Eval(fmt.Sprintf("depth %d outstanding %d", depth, len(out)))
			c.R.Traces++
			return true
		})
	}
	for _, blocking := range []bool{false, true} {
		for _, depth := range []int{1, 2} {
			users := 3
			c.Scenario(&mc.Scenario{
				Name:  fmt.Sprintf("%d users of %d tags, blocking %v", users, depth, blocking),
				Bound: c.Pick(3, 4), Shard: true,
				Body: func(x *mc.X) {
					var ts *tagstack.TagStack
					if blocking {
						ts = tagstack.NewBlocking(depth)
					} else {
						ts = tagstack.New(depth)
					}
					inUse := map[uint32]bool{}
					got := make([]int, users)
					for u := 0; u < users; u++ {
						mc.Go(fmt.Sprint("user", u), func() {
							for r := 0; r < 2; r++ {
								t, err := ts.Pop()
								if err != nil {
									if blocking || len(inUse) < depth-users+1 {
										mc.Fail("Pop: %v", err)
									}
									continue
								}
								if inUse[t] || int(t) >= depth {
									mc.Fail("tag %d handed out twice", t)
								}
								inUse[t] = true
								got[u]++
								mc.Yield()
								delete(inUse, t)
								if err := ts.Push(t); err != nil {
									mc.Fail("tag %d cannot be returned: %v", t, err)
								}
							}
						})
					}
					mc.Quiesce()
					if b := mc.Blocked(); len(b) > 0 {
						mc.Fail("users are stuck: %v", b)
					}
					for u, n := range got {
						if blocking && n != 2 {
							mc.Fail("user %d got %d tags", u, n)
						}
					}
					// nothing was lost
					seen := map[uint32]bool{}
					for i := 0; i < depth; i++ {
						t, err := ts.Pop()
						if err != nil || seen[t] {
							mc.Fail("tag lost: %v %v", t, err)
						}
						seen[t] = true
					}
					x.Outcome("%v", got)
				},
			})
		}
	}
}

// ---- address book

type abEntry struct{ id, name int }

func f05(c *mc.Ctx) {
	// identities 0..2 named n, identity 3 named n_
	mk := func(i int, nick string) zkidentity.PublicIdentity {
		var p zkidentity.PublicIdentity
		p.Nick = nick
		p.Name = fmt.Sprint("name", i)
		p.Identity[0] = byte(i + 1)
		return p
	}
	type op struct {
		name string
		add  bool
		p    zkidentity.PublicIdentity
	}
	ops := []op{
		{"add A as n", true, mk(0, "n")},
		{"add B as n", true, mk(1, "n")},
		{"add C as n_", true, mk(2, "n_")},
		{"add A as m", true, mk(0, "m")},
		{"add B as n_", true, mk(1, "n_")},
		{"del A", false, mk(0, "")},
		{"del B", false, mk(1, "")},
		{"del C", false, mk(2, "")},
	}
	check := func(ab *addressbook.AddressBook, model map[[32]byte]string) string {
		all := ab.All()
		nicks := map[string]bool{}
		ids := map[[32]byte]bool{}
		for _, p := range all {
			if nicks[p.Nick] {
				return fmt.Sprintf("two contacts are called %q", p.Nick)
			}
			nicks[p.Nick] = true
			if ids[p.Identity] {
				return fmt.Sprintf("contact %x is listed twice", p.Identity[:1])
			}
			ids[p.Identity] = true
			if n, ok := model[p.Identity]; !ok {
				return fmt.Sprintf("contact %x was removed but is still listed", p.Identity[:1])
			} else if n != p.Nick {
				return fmt.Sprintf("contact %x is called %q instead of %q", p.Identity[:1], p.Nick, n)
			}
		}
		for id, n := range model {
			p, err := ab.FindNick(n)
			if err != nil || p.Identity != id || p.Nick != n {
				return fmt.Sprintf("%q does not lead to its contact: %v", n, err)
			}
			p, err = ab.FindIdentity(id)
			if err != nil || p.Nick != n || p.Identity != id {
				return fmt.Sprintf("contact %x cannot be found: %v", id[:1], err)
			}
			q, err := ab.FindIdentityS(hex.EncodeToString(id[:]))
			if err != nil || *q != *p {
				return fmt.Sprintf("contact %x cannot be found by text: %v", id[:1], err)
			}
			p.Nick = "changed"
		}
		if len(all) != len(model) {
			return fmt.Sprintf("%d contacts listed instead of %d", len(all), len(model))
		}
		for i := 0; i < 4; i++ {
			var id [32]byte
			id[0] = byte(i + 1)
			if _, ok := model[id]; ok {
				continue
			}
			if _, err := ab.FindIdentity(id); !errors.Is(err, addressbook.ErrNotFound) {
				return fmt.Sprintf("unknown contact %d found: %v", i, err)
			}
		}
		for _, n := range []string{"n", "n_", "n__", "m", ""} {
			p, err := ab.FindNick(n)
			if nicks[n] != (err == nil) {
				return fmt.Sprintf("FindNick(%q): %v %v", n, p, err)
			}
		}
		for _, s := range []string{"", "zz", "01", strings.Repeat("01", 33)} {
			if _, err := ab.FindIdentityS(s); !errors.Is(err, addressbook.ErrInvalidID) {
				return fmt.Sprintf("FindIdentityS(%q): %v", s, err)
			}
		}
		return ""
	}
	step := func(ab *addressbook.AddressBook, model map[[32]byte]string, o op) string {
		if !o.add {
			err := ab.Del(o.p.Identity)
			if _, ok := model[o.p.Identity]; ok != (err == nil) || err != nil && !errors.Is(err, addressbook.ErrNotFound) {
				return fmt.Sprintf("Del: %v", err)
			}
			delete(model, o.p.Identity)
			return ""
		}
		taken := map[string]bool{}
		for id, n := range model {
			if id != o.p.Identity {
				taken[n] = true
			}
		}
		want := o.p.Nick
		var wantErr error
		for taken[want] {
			want += "_"
			wantErr = addressbook.ErrDuplicateNick
		}
		n, err := ab.Add(o.p)
		if n != want || !errors.Is(err, wantErr) {
			return fmt.Sprintf("Add names the contact %q (%v) instead of %q (%v)", n, err, want, wantErr)
		}
		model[o.p.Identity] = n
		return ""
	}
	seqs(c, len(ops), c.Pick(5, 6), func(s []int) bool {
		ab := addressbook.New()
		model := map[[32]byte]string{}
		var names []string
		for _, i := range s {
			names = append(names, ops[i].name)
			msg := guardS(func() string {
				if m := step(ab, model, ops[i]); m != "" {
					return m
				}
				return check(ab, model)
			})
			if msg != "" {
				c.Violate("seq:"+strings.SplitN(msg, " ", 3)[0], names, "after %v: %s", names, msg)
				return true
			}
		}
		c.R.Traces++
		c.Eval(fmt.Sprint("contacts ", len(model)))
		return !c.Expired()
	})
	c.Scenario(&mc.Scenario{
		Name: "concurrent additions of one nick", Bound: c.Pick(3, 4), Shard: true,
		Body: func(x *mc.X) {
			ab := addressbook.New()
			names := make([]string, 3)
			for i := 0; i < 3; i++ {
				mc.Go(fmt.Sprint("add", i), func() {
					names[i], _ = ab.Add(mk(i, "n"))
					if p, err := ab.FindNick(names[i]); err != nil || p.Identity[0] != byte(i+1) {
						mc.Fail("contact %d not found under its name %q: %v", i, names[i], err)
					}
				})
			}
			mc.Quiesce()
			sort.Strings(names)
			if fmt.Sprint(names) != "[n n_ n__]" || len(ab.All()) != 3 {
				mc.Fail("contacts are called %v", names)
			}
			x.Outcome("%v", names)
		},
	})
}

// ---- log files

func f06(c *mc.Ctx) {
	const (
		path = "/log/zkc.log"
		tf   = "15:04:05"
	)
	args := []struct {
		f string
		a []interface{}
	}{
		{"plain", nil},
		{"value %v", []interface{}{7}},
		{"%v", []interface{}{"100%d user %s text"}},
		{"%s|%x|%%", []interface{}{"a", []byte{1, 2}}},
		{"two %v %v", []interface{}{"x", errors.New("50%")}},
		{"", nil},
	}
	levels := []string{"LOG", "INF", "WAR", "ERR", "CRI", "DBG", "TRC"}
	call := func(d *debug.Debug, l int, id int, f string, a ...interface{}) {
		switch l {
		case 0:
			d.Log(id, f, a...)
		case 1:
			d.Info(id, f, a...)
		case 2:
			d.Warn(id, f, a...)
		case 3:
			d.Error(id, f, a...)
		case 4:
			d.Critical(id, f, a...)
		case 5:
			d.Dbg(id, f, a...)
		case 6:
			d.T(id, f, a...)
		}
	}
	for l := range levels {
		for ai, a := range args {
			for dbg := 0; dbg < 2; dbg++ {
				for tr := 0; tr < 2; tr++ {
					for id := 0; id < 2; id++ {
						if !c.Mine(ai) {
							continue
						}
						msg := guardS(func() string {
							fs := fresh()
							fs.PutDir("/log")
							fs.Put(path, []byte("old\n"))
							d, err := debug.New(path, tf)
							if err != nil {
								return err.Error()
							}
							if err := d.Register(0, "[50%d] "); err != nil {
								return err.Error()
							}
							if err := d.Register(0, "[X]"); !errors.Is(err, debug.ErrDuplicateSubsystem) {
								return fmt.Sprintf("duplicate subsystem: %v", err)
							}
							if dbg == 1 {
								d.EnableDebug()
							}
							if tr == 1 {
								d.EnableTrace()
							}
							call(d, l, id, a.f, a.a...)
							call(d, l, id, "second")
							if fs.Open != 0 {
								return fmt.Sprintf("%d files left open", fs.Open)
							}
							want := "old\n"
							if l < 5 || l == 5 && dbg == 1 || l == 6 && tr == 1 {
								sub := "[50%d] "
								if id == 1 {
									sub = "[UNK]"
								}
								want += sub + "[" + levels[l] + "] " + fmt.Sprintf(a.f, a.a...) + "\n" + sub + "[" + levels[l] + "] second\n"
							}
							got, _ := fs.Read(path)
							// drop the time stamps
							var lines []string
							for i, ln := range strings.SplitAfter(string(got), "\n") {
								if i > 0 && len(ln) > len(tf)+1 {
									ln = ln[len(tf)+1:]
								}
								lines = append(lines, ln)
							}
							if g := strings.Join(lines, ""); g != want {
								return fmt.Sprintf("log is %q instead of %q", g, want)
							}
							return ""
						})
						c.R.Traces++
						c.Eval(levels[l])
						if msg != "" {
							c.Violate("text:"+levels[l], []int{l, ai}, "%s(%q, %v): %s", levels[l], a.f, a.a, msg)
						}
					}
				}
			}
		}
	}
	c.Scenario(&mc.Scenario{
		Name: "concurrent log calls", Bound: c.Pick(3, 4), Shard: true,
		Setup: func() { fs := fresh(); vrand.Hook = nil; fs.PutDir("/log"); fs.Yield = true },
		Body: func(x *mc.X) {
			d, err := debug.New(path, tf)
			if err != nil {
				mc.Fail("New: %v", err)
			}
			for i := 0; i < 2; i++ {
				mc.Go(fmt.Sprint("logger", i), func() {
					d.Info(1, "%d first", i)
					d.Warn(1, "%d second", i)
				})
			}
			mc.Go("register", func() {
				if err := d.Register(2, "[Z] "); err != nil {
					mc.Fail("Register: %v", err)
				}
			})
			mc.Quiesce()
			got, _ := vfs.Cur.Read(path)
			l := strings.Split(strings.TrimSuffix(string(got), "\n"), "\n")
			pos := map[string]int{}
			for i, s := range l {
				pos[s[bytes.IndexByte([]byte(s), ']')+1:]] = i + 1
			}
			for i := 0; i < 2; i++ {
				a, b := pos[fmt.Sprintf("[INF] %d first", i)], pos[fmt.Sprintf("[WAR] %d second", i)]
				if a == 0 || b == 0 || a > b {
					mc.Fail("log is %q", got)
				}
			}
			if len(l) != 4 {
				mc.Fail("log is %q", got)
			}
			x.Outcome("%v", pos)
		},
	})
}

func init() {
	mc.Register(&mc.Check{ID: "F01", Level: "exploration", Run: f01, Rule: "one altered identity per case; non-trivial: distinct kinds and verdicts"})
	mc.Register(&mc.Check{ID: "F03", Level: "model_checking", Run: f03})
	mc.Register(&mc.Check{ID: "F05", Level: "model_checking", Run: f05})
	mc.Register(&mc.Check{ID: "F06", Level: "model_checking", Run: f06})
}
