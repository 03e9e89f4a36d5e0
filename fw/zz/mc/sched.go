//go:build go1.21

// Package mc is a small stateless model checker.  Instrumented code calls it
// in place of the go statement, channel operations, mutexes, clocks and file
// system calls.  While an execution is being explored exactly one managed
// thread runs at any time and every visible operation is a scheduling point.
// Outside an execution every operation falls through to the real one.
package mc

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Access describes one object touched by an operation.
type Access struct {
	Obj   uint64
	Write bool
}

type op struct {
	kind    string
	what    string
	acc     []Access
	enabled func() bool
	exec    func()
	done    bool // completed by a partner (rendezvous)
	low     int  // >0: only when nothing else is enabled (quiesce)
	sleep   int64
	spin    bool
	sel     int
	// channel bookkeeping
	ch    *chanState
	cases []*selCase
	tid   *Thread
}

// Thread is a managed thread.
type Thread struct {
	id       int
	name     string
	site     string
	e        *Exec
	wake     chan struct{}
	pending  *op
	finished bool
	killed   bool
	group    string // process the thread belongs to
	hist     uint64
	nobj     uint64
	nspawn   uint64
	steps    int
	vc       VC
}

type point struct {
	n        int    // number of options
	chosen   int    // index chosen
	cost     []int8 // additional cost per option
	sig      uint64
	labels   []string
	costHere int // cost consumed before this point
}

// Timer is a virtual timer.
type vtimer struct {
	when int64
	seq  int
	f    func()
	dead bool
	vc   VC
}

// Exec is one execution.
type Exec struct {
	opt      *Options
	threads  []*Thread
	cur      *Thread
	prefix   []int
	sigs     []uint64
	points   []point
	cost     int
	clock    int64
	timers   []*vtimer
	tseq     int
	steps    int
	visits   map[uint64]int8
	states   int
	hits     int
	pruned   bool
	doneCh   chan struct{}
	exitCh   chan struct{}
	aborting bool
	over     bool
	fail     string
	diverged string
	horizon  bool
	chans    map[uintptr]*chanState
	objs     map[uint64]*objState
	gen      uint64
	trace    []string
	keep     bool
	rnd      uint64
	calm     bool
	races    map[unsafe.Pointer]*rstate
	tvc      VC // of the timer that fires
	Env      map[string]interface{}
}

type objState struct {
	w uint64
	r uint64
}

// Options configures one exploration.
type Options struct {
	Bound    int // deviations (preemptions, faults)
	MaxSteps int
	NoPrune  bool
	MapDesc  bool // iterate maps in descending order
	// DelayBound: deviation applies at each switch too (delay bounding)
	FreeSwitchCost bool
}

var (
	cur    *Exec
	genCtr uint64
)

// Active returns the running execution or nil.
func Active() *Exec { return cur }

func running() *Thread {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Managed reports whether the caller runs under the scheduler.
func Managed() bool { return cur != nil }

func mix(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, 7)
}

// NewObj returns a fresh object id derived from the running thread's history.
func NewObj() uint64 {
	t := running()
	if t == nil {
		genCtr++
		return mix(0x1234, genCtr)
	}
	t.nobj++
	return mix(mix(t.hist, t.nobj), 0x55)
}

func (e *Exec) touch(t *Thread, kind string, accs []Access) {
	h := mix(t.hist, HashString(kind))
	for _, a := range accs {
		o := e.objs[a.Obj]
		if o == nil {
			o = &objState{}
			e.objs[a.Obj] = o
		}
		h = mix(h, a.Obj)
		h = mix(h, o.w)
		if a.Write {
			h = mix(h, o.r)
		}
	}
	for _, a := range accs {
		o := e.objs[a.Obj]
		if a.Write {
			o.w = h
			o.r = 0
		} else {
			o.r += h
		}
	}
	t.hist = h
}

// Touch records a shared access without a scheduling point.
func Touch(obj string, write bool) {
	t := running()
	if t == nil {
		return
	}
	t.e.touch(t, "t", []Access{{HashString(obj), write}})
}

func (e *Exec) sig() uint64 {
	var s uint64
	for _, t := range e.threads {
		h := t.hist
		if t.finished {
			h = mix(h, 0xdead)
		}
		s += mix(h, 0x77)
	}
	return mix(s, uint64(e.clock))
}

func (e *Exec) tracef(t *Thread, format string, a ...interface{}) {
	if e.keep {
		e.trace = append(e.trace, fmt.Sprintf("%3d %-14s ", len(e.points), t.name)+fmt.Sprintf(format, a...))
	}
}

// opEnabled reports whether t could run now.
func (t *Thread) ready() bool {
	if t.finished || t.killed || t.pending == nil {
		return false
	}
	o := t.pending
	if o.done {
		return true
	}
	if o.low > 0 {
		return false
	}
	if o.enabled == nil {
		return true
	}
	return o.enabled()
}

// choose resolves one choice among n options with the given extra costs.
func (e *Exec) choose(n int, cost []int8, sig uint64, labels []string) int {
	i := len(e.points)
	if n == 1 {
		return 0
	}
	p := point{n: n, cost: cost, sig: sig, costHere: e.cost}
	if e.keep {
		p.labels = labels
	}
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.diverge(fmt.Sprintf("replay divergence at point %d: choice %d of %d", i, c, n))
			c = 0
		}
		if i < len(e.sigs) && e.sigs[i] != sig {
			e.diverge(fmt.Sprintf("replay divergence at point %d: signature %x want %x", i, sig, e.sigs[i]))
		}
	} else if e.visits != nil {
		// state pruning
		key := sig
		if v, ok := e.visits[key]; ok && int(v) <= e.cost {
			e.hits++
			e.pruned = true
			e.over = true
			return 0
		} else {
			if !ok {
				e.states++
			}
			e.visits[key] = int8(e.cost)
		}
	}
	p.chosen = c
	if cost != nil {
		e.cost += int(cost[c])
	}
	e.points = append(e.points, p)
	return c
}

func (e *Exec) diverge(s string) {
	if e.diverged == "" {
		e.diverged = s
	}
}

// schedule picks the next thread.  self may be nil when the caller finished.
func (e *Exec) schedule(self *Thread) *Thread {
	for {
		if e.over {
			return nil
		}
		var en []*Thread
		selfReady := false
		if self != nil && !self.finished && self.ready() {
			en = append(en, self)
			selfReady = true
		}
		for _, t := range e.threads {
			if t != self && t.ready() {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			// quiesce operations, lowest level first
			var best *Thread
			for _, t := range e.threads {
				if t.finished || t.killed || t.pending == nil || t.pending.low == 0 {
					continue
				}
				if best == nil || t.pending.low < best.pending.low {
					best = t
				}
			}
			if best != nil && best.pending.low == 1 {
				best.pending.done = true
				return best
			}
			if !(TimersEnd && e.threads[0].finished) && e.fireTimer() {
				continue
			}
			if best != nil {
				best.pending.done = true
				return best
			}
			return nil
		}
		e.steps++
		if e.steps > e.opt.MaxSteps {
			e.horizon = true
			return nil
		}
		if len(en) == 1 {
			return en[0]
		}
		if e.calm {
			if selfReady && self.pending.spin {
				return en[1]
			}
			return en[0]
		}
		// canonical order: self first then ascending by id
		cost := make([]int8, len(en))
		if selfReady && !self.pending.spin {
			for i := 1; i < len(en); i++ {
				cost[i] = 1
			}
		} else if e.opt.FreeSwitchCost {
			for i := 1; i < len(en); i++ {
				cost[i] = 1
			}
		}
		s := e.sig()
		if selfReady {
			s = mix(s, self.hist)
		} else {
			s = mix(s, 1)
		}
		var labels []string
		if e.keep {
			for _, t := range en {
				labels = append(labels, t.name+":"+t.pending.kind+" "+t.pending.what)
			}
		}
		return en[e.choose(len(en), cost, s, labels)]
	}
}

func (e *Exec) fireTimer() bool {
	var b *vtimer
	for _, t := range e.timers {
		if t.dead {
			continue
		}
		if b == nil || t.when < b.when || (t.when == b.when && t.seq < b.seq) {
			b = t
		}
	}
	if b == nil {
		return false
	}
	b.dead = true
	n := e.timers[:0]
	for _, t := range e.timers {
		if !t.dead {
			n = append(n, t)
		}
	}
	e.timers = n
	if b.when > e.clock {
		e.clock = b.when
	}
	if e.opt.MaxSteps > 0 {
		e.steps++
		if e.steps > e.opt.MaxSteps {
			e.horizon = true
			return false
		}
	}
	e.tvc = b.vc
	b.f()
	e.tvc = nil
	return true
}

// dispatch hands the token to next; returns when self has it again.
func (e *Exec) dispatch(self *Thread) {
	next := e.schedule(self)
	if e.over {
		next = nil
	}
	if next == self && next != nil {
		return
	}
	if next == nil {
		e.over = true
		e.cur = nil
		e.doneCh <- struct{}{}
	} else {
		e.cur = next
		next.wake <- struct{}{}
	}
	if self != nil && !self.finished {
		<-self.wake
		if e.aborting {
			runtime.Goexit()
		}
	}
}

// point performs a visible operation.
func (t *Thread) point(o *op) {
	e := t.e
	if e.aborting {
		runtime.Goexit()
	}
	o.tid = t
	t.pending = o
	e.dispatch(t)
	if e.aborting {
		runtime.Goexit()
	}
	e.cur = t
	if !o.done && o.exec != nil {
		o.exec()
	}
	t.pending = nil
	t.steps++
	Alive()
	e.touch(t, o.kind, o.acc)
	if e.keep {
		e.tracef(t, "%s %s", o.kind, o.what)
	}
}

// Point is a generic scheduling point on an object.
func Point(kind, what string, acc ...Access) {
	t := running()
	if t == nil {
		return
	}
	t.point(&op{kind: kind, what: what, acc: acc})
}

// Block waits until cond holds.  cond must depend only on state changed by
// managed threads.
func Block(kind, what string, obj uint64, cond func() bool) {
	t := running()
	if t == nil {
		for !cond() {
			time.Sleep(50 * time.Microsecond)
		}
		return
	}
	t.point(&op{kind: kind, what: what, acc: []Access{{obj, true}}, enabled: cond})
}

// Quiesce blocks until no other thread can run (timers do not count).
func Quiesce() {
	t := running()
	if t == nil {
		time.Sleep(20 * time.Millisecond)
		return
	}
	t.point(&op{kind: "quiesce", low: 1, acc: []Access{{HashString("quiesce"), true}}})
}

// QuiesceTimers blocks until no other thread can run and no timer is left.
func QuiesceTimers() {
	t := running()
	if t == nil {
		time.Sleep(20 * time.Millisecond)
		return
	}
	t.point(&op{kind: "quiesce2", low: 2, acc: []Access{{HashString("quiesce"), true}}})
}

// CalmStart makes executions start calm; Setup sets it.
var CalmStart bool

// TimersEnd keeps timers from firing once the body has finished; Setup sets it.
var TimersEnd bool

// Calm ends (or resumes) the exploration of schedules: from here on only the
// default schedule is followed.  Choose still branches.
func Calm(on bool) {
	if cur != nil {
		cur.calm = on
	}
}

// Yield lets others run at no preemption cost.
func Yield() {
	t := running()
	if t == nil {
		runtime.Gosched()
		return
	}
	t.point(&op{kind: "yield", spin: true})
}

// Choose returns a value in [0,n): every value is explored at no cost.
func Choose(n int) int { return choose(n, 0, "") }

// Deviate returns a value in [0,n): 0 is the default, others cost 1.
func Deviate(n int) int { return choose(n, 1, "") }

// ChooseL is Choose with a label for traces.
func ChooseL(n int, label string) int { return choose(n, 0, label) }

// DeviateL is Deviate with a label.
func DeviateL(n int, label string) int { return choose(n, 1, label) }

func choose(n int, c int8, label string) int {
	t := running()
	if t == nil || n <= 1 {
		return 0
	}
	e := t.e
	if e.aborting {
		runtime.Goexit()
	}
	cost := make([]int8, n)
	for i := 1; i < n; i++ {
		cost[i] = c
	}
	s := mix(mix(e.sig(), t.hist), HashString("choose"))
	v := e.choose(n, cost, s, []string{t.name + ":choose " + label})
	if e.over {
		t.point(&op{kind: "stop"})
	}
	t.hist = mix(t.hist, uint64(v)+0x1000)
	if e.keep {
		e.tracef(t, "choose %s = %d/%d", label, v, n)
	}
	return v
}

// Go starts a managed thread (or a plain goroutine outside an execution).
func Go(site string, f func()) {
	t := running()
	if t == nil {
		go f()
		return
	}
	t.e.spawn(t, site, f)
	t.point(&op{kind: "go", what: site})
}

// GoDaemon is Go for harness threads with a name.
func GoNamed(name string, f func()) {
	t := running()
	if t == nil {
		go f()
		return
	}
	n := t.e.spawn(t, name, f)
	n.name = name
}

// GoGroup starts a thread of a process; what it starts belongs to the process
// as well.
func GoGroup(group, name string, f func()) {
	t := running()
	if t == nil {
		go f()
		return
	}
	n := t.e.spawn(t, name, f)
	n.name = name
	n.group = group
}

// Group returns the process that the running thread belongs to.
func Group() string {
	if t := running(); t != nil {
		return t.group
	}
	return ""
}

// Kill ends a process: none of its threads runs any more.
func Kill(group string) {
	t := running()
	if t == nil {
		return
	}
	for _, o := range t.e.threads {
		if o.group == group && o != t {
			o.killed = true
		}
	}
	t.e.touch(t, "kill "+group, nil)
}

// Die ends the process of the running thread.
func Die() {
	t := running()
	if t == nil {
		panic("mc.Die outside of an execution")
	}
	Kill(t.group)
	t.killed = true
	t.point(&op{kind: "dead"})
	panic("dead thread runs")
}

func (e *Exec) spawn(parent *Thread, site string, f func()) *Thread {
	n := &Thread{
		id: len(e.threads), e: e, wake: make(chan struct{}),
		name: fmt.Sprintf("T%d", len(e.threads)), site: site,
	}
	if i := strings.LastIndex(site, "/"); i >= 0 {
		n.name = fmt.Sprintf("T%d@%s", n.id, site[i+1:])
	}
	if parent != nil {
		parent.nspawn++
		n.hist = mix(mix(parent.hist, parent.nspawn), 0x99)
		n.vc = parent.snap()
		n.group = parent.group
		parent.hist = mix(parent.hist, 0x98)
	} else {
		n.hist = 0xabcdef
		n.vc.join(e.tvc)
	}
	n.tick()
	n.pending = &op{kind: "start", what: site}
	e.threads = append(e.threads, n)
	go n.main(f)
	return n
}

func (t *Thread) main(f func()) {
	e := t.e
	<-t.wake
	normal := false
	defer func() {
		r := recover()
		if r != nil && !e.aborting {
			e.setFail(fmt.Sprintf("panic in %s: %v\n%s", t.name, r, shortStack()))
		}
		_ = normal
		t.finished = true
		t.pending = nil
		if e.aborting {
			e.exitCh <- struct{}{}
			return
		}
		e.touch(t, "end", nil)
		if e.fail != "" {
			e.over = true
		}
		e.dispatch(t)
	}()
	if e.aborting {
		runtime.Goexit()
	}
	e.cur = t
	t.pending = nil
	f()
	normal = true
}

func shortStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i < len(s); i++ {
		l := s[i]
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/zz/mc/") && !strings.Contains(l, "runtime/") {
			l = strings.TrimSpace(l)
			if k := strings.LastIndex(l, " +0x"); k > 0 {
				l = l[:k]
			}
			if k := strings.Index(l, "companyzero/zkc/"); k >= 0 {
				l = l[k+len("companyzero/zkc/"):]
			}
			out = append(out, l)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " <- ")
}

func (e *Exec) setFail(s string) {
	if e.fail == "" {
		e.fail = s
	}
}

// Fail records a violation and stops the execution.
func Fail(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	t := running()
	if t == nil {
		panic(FailError(s))
	}
	t.e.setFail(s)
	t.e.over = true
	t.point(&op{kind: "fail", what: s})
}

// FailError is the panic value of Fail outside of an execution.
type FailError string

func (t *Thread) where() string {
	o := t.pending
	if o.kind == "send" || o.kind == "recv" || o.kind == "select" {
		// the channel is named only while tracing
		return fmt.Sprintf("%s[%s] %s", t.name, t.site, o.kind)
	}
	return fmt.Sprintf("%s[%s] %s %s", t.name, t.site, o.kind, o.what)
}

// BlockedThreads lists unfinished threads and what they wait for.
func (e *Exec) BlockedThreads() []string {
	var out []string
	for _, t := range e.threads {
		if !t.finished && !t.killed && t.pending != nil {
			out = append(out, t.where())
		}
	}
	sort.Strings(out)
	return out
}

// Blocked lists unfinished threads other than the caller.
func Blocked() []string {
	e := cur
	if e == nil {
		return nil
	}
	var out []string
	for _, t := range e.threads {
		if t != e.cur && !t.finished && !t.killed && t.pending != nil {
			out = append(out, t.where())
		}
	}
	sort.Strings(out)
	return out
}

var execMtx sync.Mutex

func runExec(opt *Options, prefix []int, sigs []uint64, visits map[uint64]int8, keep bool, setup func(), body func()) *Exec {
	execMtx.Lock()
	defer execMtx.Unlock()
	enter()
	defer leave()
	genCtr++
	e := &Exec{
		opt: opt, prefix: prefix, sigs: sigs, visits: visits, keep: keep,
		doneCh: make(chan struct{}), exitCh: make(chan struct{}),
		chans: make(map[uintptr]*chanState), objs: make(map[uint64]*objState),
		clock: 1600000000 * int64(time.Second), gen: genCtr,
		Env: make(map[string]interface{}), rnd: 1,
	}
	CalmStart = false
	UnlockPoints = true
	if setup != nil {
		setup()
	}
	e.calm = CalmStart
	cur = e
	t := e.spawn(nil, "main", body)
	t.name = "main"
	e.cur = t
	t.wake <- struct{}{}
	<-e.doneCh
	// abort what is left
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if !t.finished {
			e.cur = t
			t.wake <- struct{}{}
			<-e.exitCh
		}
	}
	cur = nil
	return e
}

// ---- reflection helper ----

func chanPtr(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }
