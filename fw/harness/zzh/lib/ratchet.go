//go:build go1.22

package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/companyzero/zkc/ratchet"
	"github.com/companyzero/zkc/ratchet/disk"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/snap"
	"github.com/companyzero/zkc/zz/vrand"
	"github.com/companyzero/zkc/zz/vsecretbox"
	"golang.org/x/crypto/nacl/secretbox"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

// det is a deterministic random source that is reseeded before every use.
type det struct {
	key  [32]byte
	n    uint64
	over io.Reader // takes over when set
}

func (d *det) seed(f string, a ...interface{}) {
	d.key = sha256.Sum256([]byte(fmt.Sprintf(f, a...)))
	d.n = 0
}

func (d *det) Read(p []byte) (int, error) {
	if d.over != nil {
		return d.over.Read(p)
	}
	for i := range p {
		if d.n%32 == 0 && d.n > 0 {
			d.key = sha256.Sum256(d.key[:])
		}
		p[i] = d.key[d.n%32]
		d.n++
	}
	return len(p), nil
}

// seedRand makes crypto/rand deterministic.
func seedRand(s string) {
	d := &det{}
	d.seed("%s", s)
	vrand.Hook = func(p []byte) bool { d.Read(p); return true }
}

var rClock = time.Unix(1500000000, 0)

// party is one end of a ratchet together with its reference model.
type party struct {
	r    *ratchet.Ratchet
	gen  int  // own DH keys generated
	peer int  // newest DH key of the peer seen
	flag bool // next message starts a new chain
}

type rmsg struct {
	ct       []byte
	pt       []byte
	gen      int // DH generation of the sender
	peer     int // newest generation of the recipient it was derived from
	got      bool
	bodyKey  string
	retried  int
	sentStep int
}

// rstate is one explored state: both ends and every message sent so far.
type rstate struct {
	p    [2]party
	m    [2][]rmsg
	path []string
	anc  []*rstate
	// secrets of the key exchange: both halves and the two private keys
	half [2]string
	priv [2]string
}

func (s *rstate) clone() *rstate {
	n := &rstate{path: append([]string(nil), s.path...), half: s.half, priv: s.priv}
	for i := range s.p {
		n.p[i] = s.p[i]
		n.p[i].r = snap.Copy(s.p[i].r)
		n.m[i] = append([]rmsg(nil), s.m[i]...)
	}
	n.anc = append(append([]*rstate(nil), s.anc...), s)
	return n
}

func rskip(p string) bool {
	return strings.HasSuffix(p, ".rand") || strings.HasSuffix(p, ".Now") || strings.HasSuffix(p, ".MyPrivateKey") || strings.HasSuffix(p, ".TheirPublicKey")
}

func rdump(r *ratchet.Ratchet) string { return snap.Dump(r, rskip) }

func (s *rstate) key() string {
	h := sha256.New()
	for i := range s.p {
		io.WriteString(h, rdump(s.p[i].r))
		for _, m := range s.m[i] {
			fmt.Fprintf(h, "|%v %x", m.got, m.ct)
		}
	}
	return string(h.Sum(nil))
}

var rdet = &det{}

var rids [2]*zkidentity.FullIdentity

func newHalf(i int) *ratchet.Ratchet {
	r := ratchet.New(rdet)
	r.Now = func() time.Time { return rClock }
	r.MyPrivateKey = &rids[i].PrivateKey
	r.MySigningPublic = &rids[i].Public.SigKey
	r.TheirIdentityPublic = &rids[1-i].Public.Identity
	r.TheirSigningPublic = &rids[1-i].Public.SigKey
	r.TheirPublicKey = &rids[1-i].Public.Key
	return r
}

// rpair runs the real key exchange once. alice says which end is the one
// that starts with a fresh chain. With persist the half open states go
// through Marshal and Unmarshal first.
func rpair(c *mc.Ctx, tag string, persist bool) *rstate {
	fresh()
	seedRand("identities")
	for i := range rids {
		if rids[i] == nil {
			var err error
			if rids[i], err = zkidentity.New(fmt.Sprint("user", i), fmt.Sprint("u", i)); err != nil {
				c.Errorf("identity: %v", err)
				return nil
			}
		}
	}
	seedRand("kx" + tag)
	s := &rstate{}
	var kx [2]ratchet.KeyExchange
	for i := range s.p {
		rdet.seed("new %s %d", tag, i)
		s.p[i].r = newHalf(i)
		if err := s.p[i].r.FillKeyExchange(&kx[i]); err != nil {
			c.Violate("kx:fill", nil, "FillKeyExchange failed: %v", err)
			return nil
		}
		st := s.p[i].r.Marshal(rClock, time.Hour)
		s.half[i], s.priv[i] = hex.EncodeToString(st.MyHalf), hex.EncodeToString(st.Private)
		if persist {
			r, err := rpersist(s.p[i].r, i, time.Hour)
			if err != nil {
				c.Violate("kx:persist", nil, "half open ratchet cannot be persisted: %v", err)
				return nil
			}
			s.p[i].r = r
		}
	}
	for i := range s.p {
		if err := s.p[i].r.CompleteKeyExchange(&kx[1-i], i == 1); err != nil {
			c.Violate("kx:complete", nil, "CompleteKeyExchange failed: %v (persisted half: %v)", err, persist)
			return nil
		}
	}
	s.p[1].flag = true
	vrand.Hook = nil
	return s
}

// rpersist sends a ratchet through its on disk form.
func rpersist(r *ratchet.Ratchet, i int, life time.Duration) (*ratchet.Ratchet, error) {
	var b bytes.Buffer
	if _, err := xdr.Marshal(&b, r.Marshal(rClock, life)); err != nil {
		return nil, err
	}
	var st disk.RatchetState
	if _, err := xdr.Unmarshal(bytes.NewReader(b.Bytes()), &st); err != nil {
		return nil, err
	}
	rdet.seed("restore")
	n := newHalf(i)
	return n, n.Unmarshal(&st)
}

func rpt(side, n int) []byte {
	switch n % 3 {
	case 1:
		return nil
	case 2:
		return []byte(fmt.Sprintf("%d.%d %s", side, n, strings.Repeat("z", 70)))
	}
	return []byte{byte('A' + side), byte(n)}
}

// rsend lets side send its next message.
func (s *rstate) rsend(side int) string {
	p := &s.p[side]
	n := len(s.m[side])
	m := rmsg{pt: rpt(side, n)}
	if p.flag {
		p.gen++
		p.flag = false
	}
	m.gen, m.peer = p.gen, p.peer
	rdet.seed("send %d %d", side, n)
	seals := map[string]string{}
	vsecretbox.OnSeal = func(k *[32]byte, no *[24]byte, msg []byte) {
		m.bodyKey = string(k[:])
		seals[string(k[:])+string(no[:])] = ""
	}
	var err error
	m.ct, err = p.r.Encrypt(nil, m.pt)
	vsecretbox.OnSeal = nil
	if err != nil {
		return fmt.Sprintf("Encrypt failed: %v", err)
	}
	s.m[side] = append(s.m[side], m)
	s.path = append(s.path, fmt.Sprintf("send %c%d", 'A'+side, n))
	return ""
}

// rrecv delivers message i of side to the other end.
func (s *rstate) rrecv(side, i int) string {
	m := &s.m[side][i]
	p := &s.p[1-side]
	s.path = append(s.path, fmt.Sprintf("deliver %c%d", 'A'+side, i))
	var before string
	if m.got {
		before = rdump(p.r)
	}
	ct := append([]byte(nil), m.ct...)
	pt, err := p.r.Decrypt(ct)
	if m.got {
		if err == nil {
			return fmt.Sprintf("message %c%d was decrypted a second time (to %q)", 'A'+side, i, pt)
		}
		if a := rdump(p.r); a != before {
			return fmt.Sprintf("a duplicate of %c%d changed the state:\n%s\n%s", 'A'+side, i, before, a)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("message %c%d (%d bytes of text) cannot be decrypted: %v", 'A'+side, i, len(m.pt), err)
	}
	if !bytes.Equal(pt, m.pt) {
		return fmt.Sprintf("message %c%d decrypts to %q instead of %q", 'A'+side, i, pt, m.pt)
	}
	m.got = true
	if m.gen > p.peer {
		p.peer = m.gen
		p.flag = true
	}
	return ""
}

// rsearch explores every interleaving of sends and deliveries (including
// duplicates) of up to n messages per direction and calls visit on every
// distinct state.
func rsearch(c *mc.Ctx, root *rstate, n, depth int, dups bool, visit func(s *rstate) string) {
	seen := map[string]bool{root.key(): true}
	level := []*rstate{root}
	sharded := false
	fail := func(s *rstate, msg string) {
		c.Violate("seq:"+strings.SplitN(msg, ":", 2)[0], s.path, "after %v: %s", s.path, msg)
	}
	for d := 0; len(level) > 0 && d <= depth; d++ {
		if !sharded && len(level) >= 8*c.Workers {
			var l []*rstate
			for _, s := range level {
				if c.MineS(s.key()) {
					l = append(l, s)
				}
			}
			level = l
			sharded = true
		}
		var next []*rstate
		for _, s := range level {
			if c.Expired() {
				return
			}
			if sharded || c.Worker == 0 {
				if len(s.path) > 3 {
					c.Sample(s.path)
				}
				c.R.Traces++
				c.R.States++
				if msg := guardS(func() string { return visit(s) }); msg != "" {
					fail(s, msg)
					return
				}
			}
			if d == depth {
				continue
			}
			try := func(f func(t *rstate) string, class string) bool {
				t := s.clone()
				if msg := guardS(func() string { return f(t) }); msg != "" {
					fail(t, msg)
					return false
				}
				c.R.Transitions++
				c.Eval(class)
				k := t.key()
				if !seen[k] {
					seen[k] = true
					next = append(next, t)
				}
				return true
			}
			for side := 0; side < 2; side++ {
				if len(s.m[side]) < n {
					if !try(func(t *rstate) string { return t.rsend(side) }, "send") {
						return
					}
				}
				for i := range s.m[side] {
					cl := "deliver"
					if s.m[side][i].got {
						cl = "duplicate"
						if !dups {
							continue
						}
					}
					if !try(func(t *rstate) string { return t.rrecv(side, i) }, cl) {
						return
					}
				}
			}
		}
		level = next
		c.Note("deepest level", d)
	}
}

// rorders delivers what one side sent, over one or more chains, in every order;
// with persist the recipient is saved and loaded after each message.
func rorders(c *mc.Ctx, root *rstate, n int, persist bool) {
	var pats [][]int
	var split func(p []int, left int)
	split = func(p []int, left int) {
		if left == 0 {
			pats = append(pats, append([]int(nil), p...))
			return
		}
		if len(p) == 3 {
			return
		}
		for k := 1; k <= left; k++ {
			split(append(p[:len(p):len(p)], k), left-k)
		}
	}
	split(nil, n)
	q := 0
	for side := 0; side < 2; side++ {
		for _, p := range pats {
			// pick[i] is the message of chain i that arrives early and is answered
			pick := make([]int, len(p)-1)
			for {
				q++
				if c.Mine(q) && !c.Expired() {
					if msg, path := rorder(c, root, side, p, pick, persist); msg != "" {
						c.Violate(fmt.Sprintf("order:%d", side), path, "after %v: %s", path, msg)
						return
					}
				}
				i := len(pick) - 1
				for i >= 0 {
					pick[i]++
					if pick[i] < p[i] {
						break
					}
					pick[i] = 0
					i--
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

func rorder(c *mc.Ctx, root *rstate, side int, p, pick []int, persist bool) (msg string, path []string) {
	o := 1 - side
	s := root.clone()
	do := func(msgs ...string) bool {
		for _, m := range msgs {
			if m != "" && msg == "" {
				msg = m
			}
		}
		return msg == ""
	}
	// settle both directions
	for r := 0; r < 2; r++ {
		for _, x := range []int{o, side} {
			if !do(s.rsend(x)) || !do(s.rrecv(x, len(s.m[x])-1)) {
				return msg, s.path
			}
		}
	}
	base := len(s.m[side])
	for i, k := range p {
		for j := 0; j < k; j++ {
			if !do(s.rsend(side)) {
				return msg, s.path
			}
		}
		if i < len(pick) {
			if !do(s.rrecv(side, len(s.m[side])-k+pick[i])) || !do(s.rsend(o)) || !do(s.rrecv(o, len(s.m[o])-1)) {
				return msg, s.path
			}
		}
	}
	seen := map[string]bool{}
	var walk func(s *rstate) bool
	walk = func(s *rstate) bool {
		c.R.States++
		end := true
		for i := base; i < len(s.m[side]); i++ {
			if s.m[side][i].got {
				continue
			}
			end = false
			t := s.clone()
			t.anc = nil
			if m := guardS(func() string { return t.rrecv(side, i) }); !do(m) {
				path = t.path
				return false
			}
			c.R.Transitions++
			c.Eval(fmt.Sprint("order ", persist, len(p)))
			if persist {
				r, err := rpersist(t.p[o].r, o, time.Hour)
				if err != nil {
					msg, path = fmt.Sprint("cannot be saved and loaded: ", err), t.path
					return false
				}
				t.p[o].r = r
			}
			if k := t.key(); !seen[k] {
				seen[k] = true
				if !walk(t) {
					return false
				}
			}
		}
		if end {
			c.R.Traces++
			t := s.clone()
			for i := range t.m[side] {
				if !do(t.rrecv(side, i)) { // a duplicate
					path = t.path
					return false
				}
			}
			if !do(t.rsend(o)) || !do(t.rrecv(o, len(t.m[o])-1)) || !do(t.rsend(side)) || !do(t.rrecv(side, len(t.m[side])-1)) {
				path = t.path
				return false
			}
		}
		return true
	}
	walk(s)
	return msg, path
}

func guardS(f func() string) (msg string) {
	if m := mc.Guard(func() { msg = f() }); m != "" {
		return m
	}
	return msg
}

// rwindow checks the reordering window: gaps within a chain and across the
// start of a new chain.
func rwindow(c *mc.Ctx, root *rstate) {
	const win = 80
	gaps := []int{0, 1, 2, 40, 79, 80, 81, 82, 120}
	i := 0
	for side := 0; side < 2; side++ {
		for _, g := range gaps {
			for _, k := range gaps {
				i++
				if !c.Mine(i) {
					continue
				}
				msg := guardS(func() string { return rwin(root.clone(), side, g, k, win) })
				c.Eval(fmt.Sprintf("window old gap ok=%v new gap ok=%v", g <= win, k <= win))
				c.R.Traces++
				if msg != "" {
					c.Violate(fmt.Sprintf("window:%d", side), []int{side, g, k}, "side %d, %d unread messages in the old chain, %d in the new: %s", side, g, k, msg)
				}
			}
		}
	}
}

func rwin(s *rstate, side, g, k, win int) string {
	o := 1 - side
	step := func(msgs ...string) string {
		for _, m := range msgs {
			if m != "" {
				return m
			}
		}
		return ""
	}
	// settle both directions
	for r := 0; r < 2; r++ {
		for _, x := range []int{o, side} {
			if m := step(s.rsend(x), s.rrecv(x, len(s.m[x])-1)); m != "" {
				return m
			}
		}
	}
	base := len(s.m[side])
	for i := 0; i < g; i++ {
		if m := s.rsend(side); m != "" {
			return m
		}
	}
	// the peer answers, side ratchets
	if m := step(s.rsend(o), s.rrecv(o, len(s.m[o])-1)); m != "" {
		return m
	}
	for i := 0; i <= k; i++ {
		if m := s.rsend(side); m != "" {
			return m
		}
	}
	last := len(s.m[side]) - 1
	// messages that continue the old chain belong to the old gap
	same := g > 0 && s.m[side][base].gen == s.m[side][last].gen
	oldGap, newGap := g, k
	if same {
		return "the sender did not start a new chain after the peer's answer"
	}
	ok := oldGap <= win && newGap <= win
	if ok {
		if m := s.rrecv(side, last); m != "" {
			return "jump ahead: " + m
		}
	} else {
		before := rdump(s.p[o].r)
		if pt, err := s.p[o].r.Decrypt(append([]byte(nil), s.m[side][last].ct...)); err == nil {
			return fmt.Sprintf("jump ahead by more than %d accepted: %q", win, pt)
		}
		if rdump(s.p[o].r) != before {
			return "refused jump ahead changed the state"
		}
		// catch up step by step
		if oldGap > win {
			for i := base + oldGap - 1 - win; i < base+oldGap; i++ {
				if i < base {
					continue
				}
				if m := s.rrecv(side, i); m != "" {
					return "catch up: " + m
				}
			}
		}
		if newGap > win {
			if m := s.rrecv(side, last-(newGap-win)); m != "" {
				return "catch up in the new chain: " + m
			}
		}
		if m := s.rrecv(side, last); m != "" {
			return "after catching up: " + m
		}
	}
	for i := len(s.m[side]) - 1; i >= 0; i-- {
		if !s.m[side][i].got {
			if m := s.rrecv(side, i); m != "" {
				return "late: " + m
			}
		}
		if m := s.rrecv(side, i); m != "" {
			return "late duplicate: " + m
		}
	}
	return ""
}

// rtamper applies every modification to message i of side.
func rtamper(s *rstate, side, i int, allBits bool, other *rstate, count func(string)) string {
	m := s.m[side][i]
	p := s.p[1-side].r
	before := rdump(p)
	bad := func(kind string, ct []byte) string {
		r := snap.Copy(p)
		pt, err := r.Decrypt(ct)
		count(kind)
		if err == nil {
			return fmt.Sprintf("%s message %c%d accepted as %q", kind, 'A'+side, i, pt)
		}
		if a := rdump(r); a != before {
			return fmt.Sprintf("rejected message (%s %c%d) changed the state", kind, 'A'+side, i)
		}
		return ""
	}
	for b := 0; b < len(m.ct)*8; b++ {
		if !allBits && b%8 != (b/8+i)%8 {
			continue
		}
		ct := append([]byte(nil), m.ct...)
		ct[b/8] ^= 1 << (b % 8)
		if e := bad(fmt.Sprintf("bit flipped"), ct); e != "" {
			return fmt.Sprintf("bit %d: %s", b, e)
		}
	}
	for n := 0; n < len(m.ct); n++ {
		if e := bad("truncated", append([]byte(nil), m.ct[:n]...)); e != "" {
			return fmt.Sprintf("to %d bytes: %s", n, e)
		}
	}
	if e := bad("extended", append(append([]byte(nil), m.ct...), 0)); e != "" {
		return e
	}
	if e := bad("prefixed", append([]byte{0}, m.ct...)); e != "" {
		return e
	}
	const hdr = 104
	for sd := 0; sd < 2; sd++ {
		for j := range s.m[sd] {
			if sd == side && j == i {
				continue
			}
			o := s.m[sd][j].ct
			x := append(append([]byte(nil), m.ct[:hdr]...), o[hdr:]...)
			if !bytes.Equal(x, m.ct) {
				if e := bad("spliced", x); e != "" {
					return e
				}
			}
			x = append(append([]byte(nil), o[:hdr]...), m.ct[hdr:]...)
			if e := bad("spliced", x); e != "" {
				return e
			}
		}
	}
	// made under keys anybody knows: those that are all zero
	for _, num := range []uint32{0, 1, 7} {
		for _, wait := range []uint32{0, 3} {
			if e := bad("forged", rforge(num, wait)); e != "" {
				return "under zero keys: " + e
			}
		}
	}
	// reflected to its sender
	self := s.p[side].r
	bs := rdump(self)
	r := snap.Copy(self)
	if pt, err := r.Decrypt(append([]byte(nil), m.ct...)); err == nil {
		return fmt.Sprintf("reflected message %c%d accepted by its sender as %q", 'A'+side, i, pt)
	} else if rdump(r) != bs {
		return "reflected message changed the sender's state"
	}
	count("reflected")
	// another pair's session
	if other != nil {
		for k := range other.p {
			r := snap.Copy(other.p[k].r)
			if pt, err := r.Decrypt(append([]byte(nil), m.ct...)); err == nil {
				return fmt.Sprintf("message accepted in an unrelated session as %q", pt)
			}
			count("other session")
		}
	}
	return ""
}

// rforge makes a message under the keys of a ratchet that has none yet.
func rforge(num, prev uint32) []byte {
	var hk, ck, mk [32]byte
	var hn, mn [24]byte
	for i := uint32(0); ; i++ {
		step := func(label string) (k [32]byte) {
			h := hmac.New(sha256.New, ck[:])
			h.Write([]byte(label))
			copy(k[:], h.Sum(nil))
			return
		}
		mk = step("message key")
		if i == num {
			break
		}
		ck = step("chain key step")
	}
	h := make([]byte, 64)
	binary.LittleEndian.PutUint32(h, num)
	binary.LittleEndian.PutUint32(h[4:], prev)
	h[8] = 9
	hn[0], mn[0] = 1, 2
	copy(h[40:], mn[:])
	out := secretbox.Seal(hn[:], h, &hn, &hk)
	return secretbox.Seal(out, []byte("forged"), &mn, &mk)
}

func init() {
	mc.Register(&mc.Check{
		ID: "D01", Level: "model_checking",
		Assumptions: []string{"randomness is a deterministic function of sender and message number, so that equal histories reach equal states", "key exchange keys are fixed"},
		Run: func(c *mc.Ctx) {
			root := rpair(c, "", false)
			if root == nil {
				return
			}
			rwindow(c, root)
			rorders(c, root, c.Pick(6, 8), false)
			rsearch(c, root, c.Pick(4, 5), c.Pick(11, 14), true, func(s *rstate) string {
				// everything outstanding can be delivered, in both orders
				for rev := 0; rev < 2; rev++ {
					t := s.clone()
					for side := 0; side < 2; side++ {
						for k := range t.m[side] {
							i := k
							if rev == 1 {
								i = len(t.m[side]) - 1 - k
							}
							if !t.m[side][i].got {
								if m := t.rrecv(side, i); m != "" {
									return m
								}
							}
						}
					}
				}
				return ""
			})
		},
	})
	mc.Register(&mc.Check{
		ID: "D02", Level: "model_checking",
		Run: func(c *mc.Ctx) {
			root := rpair(c, "", false)
			other := rpair(c, "other", false)
			if root == nil || other == nil {
				return
			}
			n := 0
			rsearch(c, root, c.Pick(2, 3), c.Pick(6, 8), false, func(s *rstate) string {
				n++
				for side := 0; side < 2; side++ {
					for i := range s.m[side] {
						if s.m[side][i].got {
							continue
						}
						if m := rtamper(s, side, i, len(s.path) <= c.Pick(4, 5), other, func(k string) { c.Eval(k) }); m != "" {
							return m
						}
						c.R.Traces++
						t := s.clone()
						if m := t.rrecv(side, i); m != "" {
							return "after rejected modifications: " + m
						}
					}
				}
				return ""
			})
			rkxTamper(c)
		},
	})
	mc.Register(&mc.Check{
		ID: "D03", Level: "model_checking",
		Run: func(c *mc.Ctx) {
			root := rpair(c, "", false)
			if root == nil {
				return
			}
			visit := func(s *rstate) string {
				for i := range s.p {
					r, err := rpersist(s.p[i].r, i, 24*time.Hour)
					if err != nil {
						return fmt.Sprintf("state of %c cannot be persisted: %v", 'A'+i, err)
					}
					if a, b := rdump(s.p[i].r), rdump(r); a != b {
						return fmt.Sprintf("state of %c changed by saving and loading:\n%s\n%s", 'A'+i, a, b)
					}
					// the restored end reads everything outstanding and can answer
					t := s.clone()
					t.p[i].r = r
					for j := len(t.m[1-i]) - 1; j >= 0; j-- {
						if !t.m[1-i][j].got {
							if m := t.rrecv(1-i, j); m != "" {
								return "after restart: " + m
							}
						}
						if m := t.rrecv(1-i, j); m != "" {
							return "after restart: " + m
						}
					}
					if m := t.rsend(i); m != "" {
						return "after restart: " + m
					}
					if m := t.rrecv(i, len(t.m[i])-1); m != "" {
						return "after restart: " + m
					}
					c.Eval("restart")
					c.R.Traces++
				}
				return ""
			}
			rorders(c, root, c.Pick(6, 7), true)
			rsearch(c, root, c.Pick(4, 5), c.Pick(9, 11), false, visit)
			if c.Worker == 1%c.Workers {
				if half := rpair(c, "", true); half != nil {
					rsearchSolo(c, half, visit)
				}
				rexpiry(c, root)
				rexpiry2(c, root)
				rbadState(c, root)
			}
		},
	})
	mc.Register(&mc.Check{
		ID: "D04", Level: "model_checking",
		Assumptions: []string{"an attacker who copies an end's memory is modelled by the copied state running the real Decrypt"},
		Run: func(c *mc.Ctx) {
			root := rpair(c, "", false)
			if root == nil {
				return
			}
			rsearch(c, root, c.Pick(4, 5), c.Pick(9, 11), false, func(s *rstate) string { return rsecrecy(c, s) })
			if c.Worker == 0 {
				rlong(c, root)
				rfresh(c, root)
			}
		},
	})
}

// rsearchSolo visits the first states only.
func rsearchSolo(c *mc.Ctx, s *rstate, visit func(*rstate) string) {
	for _, first := range []int{0, 1} {
		t := s.clone()
		msg := guardS(func() string {
			for k := 0; k < 4; k++ {
				x := (first + k) % 2
				if m := t.rsend(x); m != "" {
					return m
				}
				if m := visit(t); m != "" {
					return m
				}
				if m := t.rrecv(x, len(t.m[x])-1); m != "" {
					return m
				}
				if m := visit(t); m != "" {
					return m
				}
			}
			return ""
		})
		if msg != "" {
			c.Violate("seq:half", t.path, "ratchet saved in the middle of the key exchange: after %v: %s", t.path, msg)
		}
	}
}

// rexpiry: keys of missing messages live exactly as long as asked for.
func rexpiry(c *mc.Ctx, root *rstate) {
	life := time.Hour
	for _, age := range []time.Duration{0, time.Second, life - time.Second, life, life + time.Second, 10 * life} {
		s := root.clone()
		msg := guardS(func() string {
			for i := 0; i < 3; i++ {
				if m := s.rsend(1); m != "" {
					return m
				}
			}
			old := rClock
			defer func() { rClock = old }()
			if m := s.rrecv(1, 2); m != "" {
				return m
			}
			rClock = rClock.Add(age)
			r, err := rpersist(s.p[0].r, 0, life)
			if err != nil {
				return err.Error()
			}
			s.p[0].r = r
			for i := 0; i < 2; i++ {
				before := rdump(r)
				pt, err := r.Decrypt(append([]byte(nil), s.m[1][i].ct...))
				if age <= life && (err != nil || !bytes.Equal(pt, s.m[1][i].pt)) {
					return fmt.Sprintf("key of age %v lost (lifetime %v): %v", age, life, err)
				}
				if age > life && err == nil {
					return fmt.Sprintf("key of age %v kept (lifetime %v)", age, life)
				}
				if age > life && rdump(r) != before {
					return "refused message changed the state"
				}
			}
			if m := s.rsend(1); m != "" {
				return m
			}
			return s.rrecv(1, 3)
		})
		c.Eval(fmt.Sprintf("expiry %v", age > life))
		if msg != "" {
			c.Violate("expiry", age.String(), "saved with keys of age %v: %s", age, msg)
		}
	}
}

// rexpiry2: the age of a kept key counts from the message that revealed the
// gap, however often the state was saved and loaded since.
func rexpiry2(c *mc.Ctx, root *rstate) {
	life := time.Hour
	for _, step := range []time.Duration{life / 4, life / 2, life * 3 / 4, life - time.Second} {
		s := root.clone()
		msg := guardS(func() string {
			for i := 0; i < 2; i++ {
				if m := s.rsend(1); m != "" {
					return m
				}
			}
			old := rClock
			defer func() { rClock = old }()
			if m := s.rrecv(1, 1); m != "" {
				return m
			}
			for age := step; age <= 3*life; age += step {
				rClock = old.Add(age)
				r, err := rpersist(s.p[0].r, 0, life)
				if err != nil {
					return err.Error()
				}
				s.p[0].r = r
				t := snap.Copy(r)
				pt, err := t.Decrypt(append([]byte(nil), s.m[1][0].ct...))
				if age <= life && (err != nil || !bytes.Equal(pt, s.m[1][0].pt)) {
					return fmt.Sprintf("key of age %v lost (lifetime %v, saved every %v): %v", age, life, step, err)
				}
				if age > life && err == nil {
					return fmt.Sprintf("key of age %v kept (lifetime %v, saved every %v)", age, life, step)
				}
			}
			return ""
		})
		c.Eval("expiry over several saves")
		if msg != "" {
			c.Violate("expiry", step.String(), "%s", msg)
		}
	}
}

// rlong: long chains in both directions keep a key of their own for every
// message, and no end keeps one it is done with.
func rlong(c *mc.Ctx, root *rstate) {
	s := root.clone()
	s.anc = nil
	msg := guardS(func() string {
		for round := 0; round < 4; round++ {
			side := round % 2
			for k := 0; k < 70; k++ {
				if m := s.rsend(side); m != "" {
					return m
				}
				if k%3 != 2 {
					if m := s.rrecv(side, len(s.m[side])-1); m != "" {
						return m
					}
				}
			}
			if m := rsecrecy(c, s); m != "" {
				return m
			}
			for i := range s.m[side] {
				if !s.m[side][i].got {
					if m := s.rrecv(side, i); m != "" {
						return m
					}
				}
			}
		}
		return rsecrecy(c, s)
	})
	c.Eval("long chains")
	if msg != "" {
		s.path = nil
		c.Violate("long:"+strings.SplitN(msg, ":", 2)[0], nil, "long chains: %s", msg)
	}
}

// tape is a random source that flips one bit of one byte.
type tape struct {
	d    det
	n    int
	flip int
}

func (t *tape) Read(p []byte) (int, error) {
	t.d.Read(p)
	for i := range p {
		if t.n == t.flip {
			p[i] ^= 8
		}
		t.n++
	}
	return len(p), nil
}

// drawn runs f with every byte of the randomness it draws changed in turn:
// at least min bytes are drawn and each of them matters.
func drawn(c *mc.Ctx, what string, min int, f func(rnd io.Reader) string) {
	run := func(flip int) (string, int) {
		t := &tape{flip: flip}
		t.d.seed("%s", what)
		vrand.Hook = func(p []byte) bool { t.Read(p); return true }
		rdet.over = t
		defer func() { vrand.Hook, rdet.over = nil, nil }()
		var out string
		if m := guardS(func() string { out = f(t); return "" }); m != "" {
			return "", -1
		}
		return out, t.n
	}
	base, n := run(-1)
	if n < min {
		c.Violate("random:"+what, n, "%s draws %d random bytes, expected %d or more", what, n, min)
		return
	}
	for i := 0; i < n; i++ {
		out, _ := run(i)
		c.Eval("random byte")
		if out == base {
			c.Violate("random:"+what, i, "%s: random byte %d of %d does not matter", what, i, n)
			return
		}
	}
}

// rfresh: every message uses fresh nonces and every chain a fresh key.
func rfresh(c *mc.Ctx, root *rstate) {
	for side := 0; side < 2; side++ {
		s := root.clone()
		if side == 0 {
			s.rsend(1)
			s.rrecv(1, 0)
		}
		for k, min := range []int{80, 48} {
			drawn(c, fmt.Sprintf("message %d of a chain of %c", k, 'A'+side), min, func(rnd io.Reader) string {
				t := snap.Copy(s.p[side].r)
				ct, err := t.Encrypt(nil, []byte("text"))
				return fmt.Sprintf("%x %v", ct, err)
			})
			s.rsend(side)
		}
	}
	drawn(c, "new ratchet", 32, func(rnd io.Reader) string {
		r := ratchet.New(rnd)
		return fmt.Sprintf("%x", r.Marshal(rClock, time.Hour).Private)
	})
}

// rbadState: damaged state files are refused without a panic.
func rbadState(c *mc.Ctx, root *rstate) {
	s := root.clone()
	s.rsend(1)
	s.rsend(1)
	s.rrecv(1, 1)
	mod := []func(st *disk.RatchetState, cut func(b []byte) []byte){
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.RootKey = f(st.RootKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.SendHeaderKey = f(st.SendHeaderKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.RecvHeaderKey = f(st.RecvHeaderKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.NextSendHeaderKey = f(st.NextSendHeaderKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.NextRecvHeaderKey = f(st.NextRecvHeaderKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.SendChainKey = f(st.SendChainKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.RecvChainKey = f(st.RecvChainKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.SendRatchetPrivate = f(st.SendRatchetPrivate) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.RecvRatchetPublic = f(st.RecvRatchetPublic) },
		func(st *disk.RatchetState, f func(b []byte) []byte) { st.SavedKeys[0].HeaderKey = f(st.SavedKeys[0].HeaderKey) },
		func(st *disk.RatchetState, f func(b []byte) []byte) {
			st.SavedKeys[0].MessageKeys[0].Key = f(st.SavedKeys[0].MessageKeys[0].Key)
		},
	}
	cuts := []func(b []byte) []byte{
		func(b []byte) []byte { return nil },
		func(b []byte) []byte { return b[:31] },
		func(b []byte) []byte { return append(append([]byte(nil), b...), 0) },
	}
	for i, m := range mod {
		for j, f := range cuts {
			st := s.p[0].r.Marshal(rClock, time.Hour)
			m(st, f)
			var err error
			if p := mc.Guard(func() { err = newHalf(0).Unmarshal(st) }); p != "" {
				c.Violate("badstate:panic", []int{i, j}, "damaged field %d (%d): %s", i, j, p)
			} else if err == nil {
				c.Violate("badstate:accepted", []int{i, j}, "damaged field %d (%d) accepted", i, j)
			}
			c.Eval("damaged state")
		}
	}
}

// rsecrecy: every message has its own key, keys are gone after use and a
// copied state cannot read messages of later generations.
func rsecrecy(c *mc.Ctx, s *rstate) string {
	hexd := [2]string{rdump(s.p[0].r), rdump(s.p[1].r)}
	keys := map[string]string{}
	for i := range hexd {
		// what the first chain was derived from is gone, on both ends; the
		// private key of the end that did not start is its first ratchet key
		for j := range s.half {
			if s.half[j] == "" || s.priv[j] == "" {
				return "half open ratchet without its secrets"
			}
			if strings.Contains(hexd[i], s.half[j]) {
				return fmt.Sprintf("%c still holds a secret of the key exchange that the keys of messages already read follow from", 'A'+i)
			}
			if (i != j || i == 1 || s.p[0].peer > 0) && strings.Contains(hexd[i], s.priv[j]) {
				return fmt.Sprintf("%c still holds a private key of the key exchange", 'A'+i)
			}
		}
	}
	for side := 0; side < 2; side++ {
		for i := range s.m[side] {
			m := &s.m[side][i]
			n := fmt.Sprintf("%c%d", 'A'+side, i)
			if o := keys[m.bodyKey]; o != "" {
				return fmt.Sprintf("messages %s and %s are encrypted under one key", o, n)
			}
			keys[m.bodyKey] = n
			hx := fmt.Sprintf("%x", m.bodyKey)
			if strings.Contains(hexd[side], hx) {
				return fmt.Sprintf("the sender still holds the key of message %s", n)
			}
			if m.got && strings.Contains(hexd[1-side], hx) {
				return fmt.Sprintf("the recipient still holds the key of message %s after reading it", n)
			}
			c.Eval("key")
			// nothing but the recipient's own state from the right time opens it
			for ai, a := range append(append([]*rstate(nil), s.anc...), s) {
				for k := 0; k < 2; k++ {
					can := false
					if k == 1-side {
						can = m.peer <= a.p[k].gen
						if i < len(a.m[side]) && a.m[side][i].got {
							can = false
						}
					}
					if can {
						continue
					}
					r := snap.Copy(a.p[k].r)
					if pt, err := r.Decrypt(append([]byte(nil), m.ct...)); err == nil {
						return fmt.Sprintf("state of %c copied after step %d decrypts message %s (%q) although it must not", 'A'+k, ai, n, pt)
					}
					c.Eval("copied state refused")
				}
			}
		}
	}
	return ""
}

// rkxTamper: every modification of the key exchange message is refused or
// leads to a ratchet that shares nothing with the peer.
func rkxTamper(c *mc.Ctx) {
	seedRand("kxtamper")
	rdet.seed("tamper")
	var h [2]*ratchet.Ratchet
	var kx [2]ratchet.KeyExchange
	for i := range h {
		h[i] = newHalf(i)
		if err := h[i].FillKeyExchange(&kx[i]); err != nil {
			return
		}
	}
	b := snap.Copy(h[1])
	if err := b.CompleteKeyExchange(&kx[0], true); err != nil {
		c.Violate("kx:complete", nil, "%v", err)
		return
	}
	b.Now = h[1].Now
	var pubs [][]byte
	for n := 0; n < len(kx[1].Public); n += c.Pick(11, 3) {
		x := append([]byte(nil), kx[1].Public...)
		x[n] ^= 1
		pubs = append(pubs, x)
	}
	for _, n := range []int{0, 1, 31, 32, 55, 56, 57, 71, 72, len(kx[1].Public) - 1} {
		pubs = append(pubs, append([]byte(nil), kx[1].Public[:n]...))
	}
	pubs = append(pubs, append(append([]byte(nil), kx[1].Public...), 0))
	nt := 0
	try := func(what string, k ratchet.KeyExchange) {
		if nt++; !c.Mine(nt) {
			return
		}
		a := snap.Copy(h[0])
		a.Now = h[0].Now
		var err error
		if p := mc.Guard(func() { err = a.CompleteKeyExchange(&k, false) }); p != "" {
			c.Violate("kx:panic", what, "modified key exchange (%s): %s", what, p)
			return
		}
		c.Eval("modified key exchange")
		if err == nil {
			c.Violate("kx:accepted", what, "modified key exchange (%s) accepted", what)
		}
	}
	for i, p := range pubs {
		if c.Expired() {
			return
		}
		k := kx[1]
		k.Public = p
		try(fmt.Sprintf("public %d length %d", i, len(p)), k)
	}
	for n := 0; n < len(kx[1].Cipher); n += c.Pick(97, 13) {
		k := kx[1]
		k.Cipher[n] ^= 4
		try(fmt.Sprintf("cipher byte %d", n), k)
	}
}
