//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/companyzero/zkc/rpc"
	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/ttk"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/nsf/termbox-go"
)

func init() {
	mc.Register(&mc.Check{ID: "G10", Level: "model_checking", Run: checkG10, Assumptions: []string{noCrypto, noTerm}})
}

// vmodel follows which conversations are open and what was said in them.
// Conversations are named after the contact, groups with a leading #.
type vmodel struct {
	a      *cli
	l      *link
	open   []string // windows 1, 2, ...
	active int      // window the user is in
	list   map[string]int
	dead   map[int]bool
	saved  []string
	groups map[string][]string // other members
	files  map[string]string   // log file of a conversation
	unseen map[string]bool
	toks   []vtok
	n      int
}

// vtok is a text and where it is shown.
type vtok struct {
	text string
	list int
	gone bool // the window was closed
}

func viewFS() *vfs.FS {
	fs := freshFS.Clone()
	for _, i := range []*zkidentity.FullIdentity{bobID, carolID, daveID, bob2ID, annID} {
		contact(fs, aliceID, i)
	}
	putGroup(fs, "alice", "chess", 3, firstBob(), aliceID, carolID)
	putGroup(fs, "alice", "carol", 3, aliceID, daveID)
	return fs
}

func newVmodel() *vmodel {
	m := &vmodel{groups: map[string][]string{"#chess": {"bob", "carol"}, "#carol": {"dave"}}, files: map[string]string{}}
	forever()
	m.begin()
	return m
}

func (m *vmodel) begin() {
	m.a, m.l = boot(aliceID, false)
	m.open, m.active = nil, 0
	m.list, m.dead, m.unseen = map[string]int{}, map[int]bool{}, map[string]bool{}
	m.toks = nil
	m.reopen() // done when online without any window
}

func (m *vmodel) reopen() {
	for _, c := range m.saved {
		if m.people(c) != nil {
			m.open = append(m.open, c)
		}
	}
}

func (m *vmodel) id(who string) *zkidentity.FullIdentity {
	switch who {
	case "bob":
		return firstBob()
	case "bob_":
		if firstBob() == bobID {
			return bob2ID
		}
		return bobID
	case "ann lee":
		return annID
	}
	return idOf(who)
}

// firstBob is the one of the two bobs who is listed first and so keeps the nick.
func firstBob() *zkidentity.FullIdentity {
	if hexID(bobID) < hexID(bob2ID) {
		return bobID
	}
	return bob2ID
}

// conv is the conversation of the active window, "" for the console.
func (m *vmodel) conv() string {
	if m.active == 0 {
		return ""
	}
	return m.open[m.active-1]
}

func title(conv string) string {
	if conv == "" {
		return "console"
	}
	return strings.TrimPrefix(conv, "#")
}

func (m *vmodel) number(conv string) int {
	for i, o := range m.open {
		if o == conv {
			return i + 1
		}
	}
	return 0
}

// opened notes that a conversation has a window now.
func (m *vmodel) opened(conv string) {
	if m.number(conv) == 0 {
		m.open = append(m.open, conv)
	}
}

// at demands that the user is in the right window, and only there.
func (m *vmodel) at() {
	w := m.a.window("mainWindow")
	vis := -1
	for i, v := range w.Views() {
		if !v.Visible {
			continue
		}
		if vis >= 0 {
			mc.Fail("two windows are visible at once")
		}
		vis = i
	}
	if vis < 0 {
		mc.Fail("no window is visible")
	}
	c := m.conv()
	if m.dead[vis] {
		mc.Fail("a window that was closed is visible")
	}
	if c == "" && vis != 0 || c != "" && vis == 0 {
		mc.Fail("the visible window is number %d in the client, %q is expected", vis, c)
	}
	if l, ok := m.list[c]; ok && l != vis {
		mc.Fail("another window than that of %q is visible", c)
	}
	for o, l := range m.list {
		if l == vis && o != c {
			mc.Fail("the window of %q is visible, that of %q is expected", o, c)
		}
	}
	if c != "" {
		m.list[c] = vis
	}
	l := w.Labels()
	if got, want := strings.TrimSpace(plain(l[0])), title(c)+"@"; c != "" && !strings.HasPrefix(got, want) || c == "" && !strings.HasPrefix(got, "console") {
		mc.Fail("the title is %q in the window of %q", got, c)
	}
	st := plain(l[1])
	if want := fmt.Sprintf("[%d:%s]", m.active, title(c)); !strings.Contains(st, want) {
		mc.Fail("status %q in window %d of %q", st, m.active, c)
	}
	delete(m.unseen, c)
	dirty := map[string]bool{}
	for _, d := range strings.Split(strings.Trim(st[strings.LastIndex(st, "[")+1:], " ]"), ",") {
		dirty[d] = true
	}
	for c := range m.unseen {
		if !dirty[strconv.Itoa(m.number(c))] {
			mc.Fail("status %q does not mention window %d of %q with unseen text", st, m.number(c), c)
		}
	}
}

func (m *vmodel) text() string { m.n++; return fmt.Sprintf("tx%dt", m.n) }

// look demands that a text is shown once, in the conversation's window, and
// logged once; with is what the line has to contain before the text.
func (m *vmodel) look(conv, text, with string) {
	at := -1
	for i, v := range m.a.window("mainWindow").Views() {
		for _, s := range v.Lines {
			s = plain(s)
			if !strings.Contains(s, text) {
				continue
			}
			if at >= 0 {
				mc.Fail("text for %q is shown in two places", conv)
			}
			at = i
			if !strings.Contains(s[:strings.Index(s, text)], with) {
				mc.Fail("text of %q is shown as %q", with, s)
			}
		}
	}
	if at < 0 {
		mc.Fail("text for %q is not shown", conv)
	}
	if at == 0 || m.dead[at] {
		mc.Fail("text for %q is shown in the console or a closed window", conv)
	}
	if l, ok := m.list[conv]; ok && l != at {
		mc.Fail("text for %q is shown in another window", conv)
	}
	for o, l := range m.list {
		if l == at && o != conv {
			mc.Fail("text for %q is shown in the window of %q", conv, o)
		}
	}
	m.list[conv] = at
	m.toks = append(m.toks, vtok{text: text, list: at})
	m.logged(conv, text)
}

// logged demands that a text is in the log of its conversation only.
func (m *vmodel) logged(conv, text string) {
	n := 0
	for _, f := range vfs.Cur.Files("/") {
		b, _ := vfs.Cur.Read(f)
		k := strings.Count(string(b), text)
		if k == 0 {
			continue
		}
		n += k
		if !strings.HasPrefix(f, root("alice")+"/logs/") {
			mc.Fail("text for %q is in %s", conv, f)
		}
		if m.files[conv] == "" {
			for o, g := range m.files {
				if g == f {
					mc.Fail("%q and %q are logged in %s", conv, o, f)
				}
			}
			m.files[conv] = f
		}
		if m.files[conv] != f {
			mc.Fail("text for %q is logged in %s and not in %s", conv, f, m.files[conv])
		}
	}
	if n != 1 {
		mc.Fail("text for %q is logged %d times", conv, n)
	}
}

// people are the recipients of what is said in a conversation.
func (m *vmodel) people(conv string) []string {
	if conv == "" {
		return nil
	}
	if g, ok := m.groups[conv]; ok {
		return g
	}
	if conv[0] == '#' {
		return nil
	}
	return []string{conv}
}

// out demands that exactly the people of a conversation get a text, and
// returns the conversation; several may be possible.
func (m *vmodel) out(text string, mode rpc.MessageMode, convs ...string) string {
	var got []string
	for _, s := range m.l.sent(m.l.poll()) {
		nick := s.nick
		if nick == "bob" && s.p.id != firstBob() {
			nick = "bob_"
		}
		switch v := s.v.(type) {
		case *rpc.PrivateMessage:
			got = append(got, fmt.Sprintf("pm %s %d %s", nick, v.Mode, v.Text))
		case *rpc.GroupMessage:
			got = append(got, fmt.Sprintf("#%s %s %d %s", v.Name, nick, v.Mode, v.Message))
		default:
			got = append(got, fmt.Sprintf("%s %T", nick, v))
		}
	}
	sort.Strings(got)
	var wants []string
	for _, c := range convs {
		var want []string
		for _, p := range m.people(c) {
			if c[0] == '#' {
				want = append(want, fmt.Sprintf("%s %s %d %s", c, p, mode, text))
			} else {
				want = append(want, fmt.Sprintf("pm %s %d %s", p, mode, text))
			}
		}
		sort.Strings(want)
		if strings.Join(got, ", ") == strings.Join(want, ", ") {
			return c
		}
		wants = append(wants, strings.Join(want, ", "))
	}
	mc.Fail("sent [%s] instead of [%s]", strings.Join(got, ", "), strings.Join(wants, "] or ["))
	return ""
}

func speaks(who string, mode rpc.MessageMode) string {
	if mode == rpc.MessageModeMe {
		return " * " + who + " "
	}
	return " <" + who + "> "
}

// say types a text into the active window.
func (m *vmodel) say(mode rpc.MessageMode) {
	c := m.conv()
	t := m.text()
	cmd := t
	if mode == rpc.MessageModeMe {
		cmd = "/me " + t
	}
	m.a.cmd("%s", cmd)
	m.out(t, mode, c)
	if m.people(c) == nil {
		// an error is shown at most
		m.at()
		return
	}
	m.look(c, t, speaks("alice", mode))
	m.at()
}

// sayTo sends with a command.
func (m *vmodel) sayTo(cmd, conv string) {
	t := m.text()
	m.a.cmd("%s %s", cmd, t)
	m.out(t, rpc.MessageModeNormal, conv)
	if m.people(conv) != nil {
		m.opened(conv)
		m.look(conv, t, speaks("alice", rpc.MessageModeNormal))
		if conv != m.conv() {
			m.unseen[conv] = true
		}
	}
	m.at()
}

// query opens a window by name, which may be that of a contact or a group.
func (m *vmodel) query(name string) {
	m.a.cmd("/q %s", name)
	t := m.text()
	m.a.cmd("%s", t)
	c := m.out(t, rpc.MessageModeNormal, name, "#"+name)
	m.opened(c)
	m.active = m.number(c)
	m.at()
	m.look(c, t, speaks("alice", rpc.MessageModeNormal))
}

// hear receives a message.
func (m *vmodel) hear(from, group string, mode rpc.MessageMode) {
	t := m.text()
	p := m.a.peer(m.id(from))
	conv := from
	if group != "" {
		conv = group
		m.none(m.l.tell(p, rpc.GroupMessage{Name: group[1:], Message: t, Mode: mode, Generation: 3}))
	} else {
		m.none(m.l.tell(p, rpc.PrivateMessage{Text: t, Mode: mode}))
	}
	m.opened(conv)
	m.look(conv, t, speaks(from, mode))
	if conv != m.conv() {
		m.unseen[conv] = true
	}
	m.at()
}

func (m *vmodel) none(ms []rmsg) {
	for _, r := range ms {
		mc.Fail("unexpected %s", r.m.Command)
	}
}

func (m *vmodel) quiet() { m.none(m.l.poll()); m.at() }

func (m *vmodel) win(n int) {
	m.a.cmd("/w %d", n)
	if n <= len(m.open) {
		m.active = n
	}
	m.quiet()
}

func (m *vmodel) key(k termbox.Key) {
	m.a.do(func() { mc.Send((chan<- ttk.Key)(ttk.KeyChannel()))(ttk.Key{Key: k}) })
	mc.Quiesce()
	n := len(m.open) + 1
	if k == termbox.KeyCtrlN {
		m.active = (m.active + 1) % n
	} else {
		m.active = (m.active + n - 1) % n
	}
	m.quiet()
}

func (m *vmodel) alt(n int) {
	m.a.do(func() { mc.Send((chan<- ttk.Key)(ttk.KeyChannel()))(ttk.Key{Mod: 1, Ch: rune('0' + n)}) })
	mc.Quiesce()
	if n <= len(m.open) {
		m.active = n
	}
	m.quiet()
}

func (m *vmodel) closed(c string) {
	if l, ok := m.list[c]; ok {
		m.dead[l] = true
		for i := range m.toks {
			m.toks[i].gone = m.toks[i].gone || m.toks[i].list == l
		}
	}
	delete(m.list, c)
	delete(m.unseen, c)
}

func (m *vmodel) closeWin() {
	m.a.cmd("/wc")
	if m.active > 0 {
		m.closed(m.conv())
		m.open = append(m.open[:m.active-1:m.active-1], m.open[m.active:]...)
		m.active = 0
	}
	m.quiet()
}

func (m *vmodel) save() {
	m.a.cmd("/save")
	m.saved = append([]string{}, m.open...)
	m.quiet()
}

func (m *vmodel) restore() {
	m.a.cmd("/restore")
	if m.saved != nil {
		for _, c := range m.open {
			m.closed(c)
		}
		m.open, m.active = nil, 0
		m.reopen()
	}
	m.quiet()
}

func (m *vmodel) restart() {
	m.a.quit()
	peers := m.a.peers
	m.begin()
	m.a.peers = peers
	m.at()
}

// reconnect loses the connection for a moment.
func (m *vmodel) reconnect() {
	m.l.c.Close()
	mc.Quiesce()
	mc.Advance(int64(31 * time.Second))
	m.l = m.a.online(false)
	if len(m.open) == 0 {
		m.reopen()
	}
	m.quiet()
}

func (m *vmodel) kill() {
	m.none(m.l.tell(m.a.peer(firstBob()), rpc.GroupKill{Name: "chess", Reason: "r"}))
	delete(m.groups, "#chess")
	m.at()
}

// listed is a change of a group by its administrator.
func (m *vmodel) listed() {
	if m.groups["#chess"] == nil {
		return
	}
	m.none(m.l.tell(m.a.peer(firstBob()), rpc.GroupList{Name: "chess", Generation: 7, Timestamp: 1500000000, Members: ids([]*zkidentity.FullIdentity{firstBob(), aliceID, carolID, daveID})}))
	m.groups["#chess"] = []string{"bob", "carol", "dave"}
	if m.number("#chess") == 0 && strings.Count(strings.Join(flat(m.a.screen()), "\n"), "group conversation started") > 0 {
		// whether news of a group open its window is not specified
		m.windows("#chess")
	}
	m.at()
}

func flat(l [][]string) (out []string) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}

// windows finds out whether the conversation has got a window: the status
// shows how many there are when paging through them.
func (m *vmodel) windows(conv string) {
	old := m.active
	m.a.cmd("/w %d", len(m.open)+1)
	if st := plain(m.a.window("mainWindow").Labels()[1]); strings.Contains(st, fmt.Sprintf("[%d:", len(m.open)+1)) {
		m.opened(conv)
		m.active = len(m.open)
		m.at()
	}
	m.a.cmd("/w %d", old)
	m.active = old
}

// end visits every window in every way.
func (m *vmodel) end() string {
	m.win(0)
	for n := 1; n <= len(m.open)+1; n++ {
		m.win(n)
		if n <= len(m.open) {
			m.say(rpc.MessageModeNormal)
		}
	}
	m.win(0)
	for i := 0; i <= len(m.open); i++ {
		m.key(termbox.KeyCtrlN)
	}
	for i := 0; i <= len(m.open); i++ {
		m.key(termbox.KeyCtrlP)
	}
	for n := len(m.open); n >= 0; n-- {
		m.alt(n)
	}
	for _, c := range append([]string(nil), m.open...) {
		switch {
		case m.people(c) == nil:
		case c[0] == '#':
			m.hear(m.people(c)[0], c, rpc.MessageModeNormal)
		default:
			m.hear(c, "", rpc.MessageModeNormal)
		}
	}
	views := m.a.window("mainWindow").Views()
	for _, t := range m.toks {
		for i, v := range views {
			n := strings.Count(strings.Join(v.Lines, "\n"), t.text)
			if i == t.list && n != 1 || i != t.list && n != 0 {
				mc.Fail("a text moved or was repeated")
			}
		}
	}
	sort.Strings(m.open)
	return strings.Join(m.open, " ")
}

func vEvents() []ev[*vmodel] {
	return []ev[*vmodel]{
		{"/q bob", func(m *vmodel) { m.query("bob") }},
		{"/q bob_", func(m *vmodel) { m.query("bob_") }},
		{"/q carol", func(m *vmodel) { m.query("carol") }},
		{"bob: text", func(m *vmodel) { m.hear("bob", "", rpc.MessageModeNormal) }},
		{"bob_: text", func(m *vmodel) { m.hear("bob_", "", rpc.MessageModeNormal) }},
		{"carol: text", func(m *vmodel) { m.hear("carol", "", rpc.MessageModeMe) }},
		{"ann: text", func(m *vmodel) { m.hear("ann lee", "", rpc.MessageModeNormal) }},
		{"chess: bob: text", func(m *vmodel) {
			if m.groups["#chess"] != nil {
				m.hear("bob", "#chess", rpc.MessageModeMe)
			}
		}},
		{"carol: dave: text", func(m *vmodel) { m.hear("dave", "#carol", rpc.MessageModeNormal) }},
		{"/w 0", func(m *vmodel) { m.win(0) }},
		{"/w 1", func(m *vmodel) { m.win(1) }},
		{"/w 2", func(m *vmodel) { m.win(2) }},
		{"/wc", func(m *vmodel) { m.closeWin() }},
		{"text", func(m *vmodel) { m.say(rpc.MessageModeNormal) }},
		{"/me text", func(m *vmodel) { m.say(rpc.MessageModeMe) }},
		{"/m bob_ text", func(m *vmodel) { m.sayTo("/m bob_", "bob_") }},
		{"/msg carol text", func(m *vmodel) { m.sayTo("/msg carol", "carol") }},
		{"/gc m carol text", func(m *vmodel) { m.sayTo("/gc m carol", "#carol") }},
		{"/gc m chess text", func(m *vmodel) { m.sayTo("/gc m chess", "#chess") }},
		{"/save", func(m *vmodel) { m.save() }},
		{"/restore", func(m *vmodel) { m.restore() }},
		{"restart", func(m *vmodel) { m.restart() }},
		{"reconnect", func(m *vmodel) { m.reconnect() }},
		{"bob kills chess", func(m *vmodel) { m.kill() }},
		{"bob lists chess", func(m *vmodel) { m.listed() }},
	}
}

// oddNick talks to a contact with a strange nick.
func oddNick(c *mc.Ctx, fs *vfs.FS, nick string) {
	id, err := zkidentity.New("odd", nick)
	if err != nil {
		c.Eval("nick " + nick + " refused")
		return
	}
	odd := fs.Clone()
	odd.PutDir("/tmp")
	contact(odd, aliceID, id)
	old := annID
	annID = id
	defer func() { annID = old }()
	setupOn(odd)()
	f := mc.RunOnce(func() {
		m := newVmodel()
		p := m.a.peer(id)
		before := map[string]bool{}
		for _, f := range vfs.Cur.Files("/") {
			before[f] = true
		}
		logged := func(t string) {
			n := 0
			for _, f := range vfs.Cur.Files("/") {
				b, _ := vfs.Cur.Read(f)
				k := strings.Count(string(b), t)
				n += k
				if (k > 0 || !before[f]) && !strings.HasPrefix(f, root("alice")+"/logs/") && !strings.HasPrefix(f, root("alice")+"/inbound/"+hexID(id)+"/") {
					mc.Fail("talking to %q makes %s", nick, f)
				}
			}
			if n != 1 {
				mc.Fail("text of %q is logged %d times", nick, n)
			}
		}
		t := m.text()
		m.none(m.l.tell(p, rpc.PrivateMessage{Text: t}))
		if n := m.a.shown(t); n != 1 {
			mc.Fail("text of %q is shown %d times", nick, n)
		}
		logged(t)
		m.a.cmd("/w 1")
		t = m.text()
		m.a.cmd("%s", t)
		ms := m.l.sent(m.l.poll())
		if len(ms) != 1 || ms[0].p.id != id {
			mc.Fail("text typed into the window of %q is sent %d times or elsewhere", nick, len(ms))
		}
		if n := m.a.shown(t); n != 1 {
			mc.Fail("text for %q is shown %d times", nick, n)
		}
		logged(t)
	})
	if f != "" {
		first := strings.SplitN(f, "\n", 2)[0]
		c.Violate("nick:"+nick+":"+strip(first), nick, "nick %q: %s", nick, first)
	}
	c.Eval("nick " + nick)
}

// saveCrashes dies while conversations are saved: afterwards those saved
// before or now are opened.
func saveCrashes(c *mc.Ctx, fs *vfs.FS) {
	first, second := 0, 0
	crashes(c, "save", fs, 8, true, func(a *cli, l *link) {
		l.tell(a.peer(bobID), rpc.PrivateMessage{Text: "x"})
		l.tell(a.peer(carolID), rpc.PrivateMessage{Text: "x"})
		a.cmd("/save")
		first = len(vfs.Cur.Log)
		l.tell(a.peer(firstBob()), rpc.GroupMessage{Name: "chess", Message: "x", Generation: 3})
		a.cmd("/w 1")
		a.cmd("/wc")
		a.cmd("/save")
		second = len(vfs.Cur.Log)
	}, func(a *cli, l *link, full bool) {
		var open []string
		for n := 1; n < 6; n++ {
			a.cmd("/w %d", n)
			st := plain(a.window("mainWindow").Labels()[1])
			i := strings.Index(st, fmt.Sprintf("[%d:", n))
			if i < 0 {
				break
			}
			st = st[i+3:]
			open = append(open, st[:strings.Index(st, "]")])
		}
		got := strings.TrimRight(strings.Join(open, " "), "_")
		old, now := "bob carol", "carol chess"
		if firstBob() != bobID {
			old = "bob_ carol"
		}
		switch {
		case got == now && crashedAfter > first:
		case got == old && crashedAfter < second:
		case got == "" && crashedAfter < first:
		default:
			mc.Fail("%q open after a crash after %d operations, saved after %d and %d", got, crashedAfter, first, second)
		}
		a.alive(l, a.peer(carolID), "alive")
	})
}

// few are events that combine in longer histories.
func few(evs []ev[*vmodel]) (out []ev[*vmodel]) {
	for _, e := range evs {
		switch e.name {
		case "bob: text", "bob_: text", "carol: text", "carol: dave: text", "/w 1", "/wc", "text", "/save", "/restore", "restart", "bob kills chess", "chess: bob: text":
			out = append(out, e)
		}
	}
	return
}

func checkG10(c *mc.Ctx) {
	world()
	fs := viewFS()
	evs := vEvents()
	start := newVmodel
	end := func(m *vmodel) string { return m.end() }
	for d := 1; d <= 3; d++ {
		histories(c, fmt.Sprintf("windows %d", d), fs, evs, d, start, end)
	}
	if c.Quick() {
		histories(c, "windows 4", fs, few(evs), 4, start, end)
	} else {
		histories(c, "windows 4", fs, evs, 4, start, end)
		histories(c, "windows 5", fs, few(evs), 5, start, end)
	}
	for i, nick := range []string{"../x", "a/b", "..", ".", "/abs", "../../bob/x", "../../../tmp/x", "../inbound/x", "a b  c", "\u00fcn\u00ef", "%d%s", "-x", "console", "", "x\\y", "/", "//"} {
		if !c.Mine(i) {
			continue
		}
		oddNick(c, fs, nick)
	}
	saveCrashes(c, fs)
	bound := c.Pick(2, 3)
	sc := func(name string, win int, arrive []string, cmds ...string) {
		c.Scenario(&mc.Scenario{Name: name, Bound: bound, Shard: true, Setup: setupOn(fs), Opt: mc.Options{FreeSwitchCost: true}, Body: func(x *mc.X) {
			m := newVmodel()
			m.hear("bob", "", rpc.MessageModeNormal)
			m.hear("carol", "", rpc.MessageModeNormal)
			m.hear("bob", "#chess", rpc.MessageModeNormal)
			if strings.Contains(strings.Join(cmds, " "), "/restore") {
				m.save()
			}
			m.win(win)
			mc.Calm(false)
			m.race(x, arrive, cmds)
		}})
	}
	sc("close a window while messages arrive", 1, []string{"carol", "#chess"}, "/wc")
	sc("close the window of the sender", 2, []string{"carol"}, "/wc")
	sc("close windows while a message arrives in a new one", 1, []string{"ann lee"}, "/wc", "/w 1", "/wc")
	sc("restore while messages arrive", 3, []string{"carol", "#chess"}, "/restore")
	sc("send and close", 1, []string{"carol"}, "/m carol ", "/gc m chess ", "/wc")
	sc("talk and close", 1, []string{"bob"}, "", "/wc", "/w 1", "")
	sc("switch while messages arrive", 1, []string{"bob", "carol"}, "/w 2", "", "/w 3", "")
}

// race runs commands while messages arrive: nothing may end up in the wrong
// place, whatever comes first.  A command that ends with a space sends a text,
// an empty one is a text typed into the window.
func (m *vmodel) race(x *mc.X, arrive, cmds []string) {
	cmds = append([]string(nil), cmds...)
	var in []string
	for i, f := range arrive {
		t := m.text()
		in = append(in, t)
		if f[0] == '#' {
			p := m.a.peer(firstBob())
			m.l.pushNow(uint32(i), p.id, p.seal(rpc.GroupMessage{Name: f[1:], Message: t, Generation: 3}))
		} else {
			p := m.a.peer(m.id(f))
			m.l.pushNow(uint32(i), p.id, p.seal(rpc.PrivateMessage{Text: t}))
		}
	}
	var texts, how []string
	for i, c := range cmds {
		if c == "" || strings.HasSuffix(c, " ") {
			t := m.text()
			cmds[i] += t
			texts, how = append(texts, t), append(how, c)
		}
	}
	m.a.typed(cmds...)
	mc.Quiesce()
	mc.Calm(true)
	// who got what
	sent := map[string][]string{}
	acks := 0
	ms := m.l.poll()
	for _, r := range ms {
		if r.m.Command == rpc.TaggedCmdAcknowledge {
			acks++
		}
	}
	if acks != len(in) {
		mc.Fail("%d of %d messages acknowledged", acks, len(in))
	}
	for _, s := range m.l.sent(ms) {
		switch v := s.v.(type) {
		case *rpc.PrivateMessage:
			sent[v.Text] = append(sent[v.Text], s.nick)
		case *rpc.GroupMessage:
			sent[v.Message] = append(sent[v.Message], "#"+v.Name)
		}
	}
	views := m.a.window("mainWindow").Views()
	check := func(t, conv string) {
		n := 0
		for i, v := range views {
			for _, l := range v.Lines {
				if !strings.Contains(l, t) {
					continue
				}
				n++
				if i == 0 {
					mc.Fail("text for %q is shown in the console", conv)
				}
				for o, k := range m.list {
					if k == i && o != conv {
						mc.Fail("text for %q is shown in the window of %q", conv, o)
					}
				}
			}
		}
		if n != 1 {
			mc.Fail("text for %q is shown %d times", conv, n)
		}
		m.logged(conv, t)
		x.Outcome("%s to %s", t, conv)
	}
	for i, t := range in {
		check(t, arrive[i])
	}
	for i, t := range texts {
		c, to := how[i], sent[t]
		if len(to) == 0 && c == "" {
			continue // typed into the console
		}
		if len(to) == 0 {
			mc.Fail("%q was not sent", c)
		}
		if want := map[string]string{"/m carol ": "carol", "/gc m chess ": "#chess"}[c]; want != "" && want != to[0] {
			mc.Fail("%q was sent to %q", c, to[0])
		}
		check(t, to[0])
	}
	// every window still is what it says, and there is one per conversation
	seen := map[string]bool{}
	for n := 1; n <= 6; n++ {
		m.a.cmd("/w %d", n)
		if !strings.Contains(plain(m.a.window("mainWindow").Labels()[1]), fmt.Sprintf("[%d:", n)) {
			break
		}
		t := m.text()
		m.a.cmd("%s", t)
		var to string
		for _, s := range m.l.sent(m.l.poll()) {
			switch v := s.v.(type) {
			case *rpc.PrivateMessage:
				to = s.nick
			case *rpc.GroupMessage:
				to = "#" + v.Name
			}
		}
		if seen[to] {
			mc.Fail("%q has two windows", to)
		}
		seen[to] = true
		lb := plain(m.a.window("mainWindow").Labels()[0])
		if !strings.HasPrefix(strings.TrimSpace(lb), title(to)+"@") {
			mc.Fail("the title is %q in the window of %q", lb, to)
		}
		vis := 0
		for i, v := range m.a.window("mainWindow").Views() {
			if v.Visible {
				vis++
				if l, ok := m.list[to]; ok && l != i && !m.replaced(cmds) {
					mc.Fail("another window than that of %q is visible", to)
				}
			}
		}
		if vis != 1 {
			mc.Fail("%d windows are visible", vis)
		}
	}
}

// replaced tells whether windows may be new.
func (m *vmodel) replaced(cmds []string) bool {
	s := strings.Join(cmds, " ")
	return strings.Contains(s, "/wc") || strings.Contains(s, "/restore")
}
