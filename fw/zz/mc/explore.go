//go:build go1.21

package mc

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// X is handed to the harness body of one execution.
type X struct {
	E   *Exec
	out []string
}

// Outcome adds an observed outcome of this execution (for vacuity checks).
func (x *X) Outcome(format string, a ...interface{}) {
	x.out = append(x.out, fmt.Sprintf(format, a...))
}

// Report summarises one exploration.
type Report struct {
	Name       string         `json:"name"`
	Execs      int            `json:"executions"`
	Steps      int            `json:"steps"`
	Points     int            `json:"points"`
	States     int            `json:"states"`
	Hits       int            `json:"pruned"`
	MaxPoints  int            `json:"max_points"`
	MaxSteps   int            `json:"max_steps"`
	Bound      int            `json:"bound"`
	Done       bool           `json:"done"`
	Outcomes   map[string]int `json:"outcomes"`
	Violation  string         `json:"violation,omitempty"`
	Choices    []int          `json:"choices,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Horizons   int            `json:"horizons"`
	Diverged   string         `json:"diverged,omitempty"`
	Replayed   int            `json:"replayed"`
	WallMillis int64          `json:"wall_ms"`
}

// Scenario is one closed system to explore.
type Scenario struct {
	Name  string
	Bound int // maximal deviations
	// IterFrom is the first bound tried.
	Opt   Options
	Setup func()
	// Body runs as the main managed thread.  After the execution has come to
	// rest After is called outside of it with access to e.
	Body  func(x *X)
	After func(x *X)
	// HorizonOK: do not treat hitting MaxSteps as a violation.
	HorizonOK bool
	Shard     bool
	// DeadlockOK: main may stay blocked
	DeadlockOK bool
}

type job struct {
	prefix []int
	sigs   []uint64
}

// Explore runs the scenario within its bound.
func (s *Scenario) Explore(deadline time.Time, shard, shards int) *Report {
	start := time.Now()
	r := &Report{Name: s.Name, Outcomes: map[string]int{}, Bound: -1, Done: true}
	defer func() { r.WallMillis = time.Since(start).Milliseconds() }()
	if s.Opt.MaxSteps == 0 {
		s.Opt.MaxSteps = 20000
	}
	for b := 0; b <= s.Bound; b++ {
		if b != s.Bound && s.Bound > 2 && b < s.Bound-1 && b > 0 {
			// skip intermediate bounds except 0 and the last two
			continue
		}
		if !s.bounded(r, b, deadline, shard, shards) {
			r.Done = false
			return r
		}
		if r.Violation != "" || r.Diverged != "" {
			return r
		}
		r.Bound = b
	}
	return r
}

func (s *Scenario) run(opt *Options, prefix []int, sigs []uint64, visits map[uint64]int8, keep bool) (*Exec, *X) {
	x := &X{}
	e := runExec(opt, prefix, sigs, visits, keep, s.Setup, func() {
		x.E = cur
		s.Body(x)
	})
	x.E = e
	if e.pruned {
		return e, x
	}
	if e.fail == "" && e.horizon && !s.HorizonOK {
		e.fail = "no progress: execution exceeded its step horizon"
	}
	if e.fail == "" && !e.horizon && !e.threads[0].finished && !s.DeadlockOK {
		e.fail = "deadlock: " + strings.Join(e.BlockedThreads(), "; ")
	}
	if e.fail == "" && s.After != nil {
		func() {
			defer func() {
				if v := recover(); v != nil {
					if f, ok := v.(FailError); ok {
						e.fail = string(f)
						return
					}
					e.fail = fmt.Sprintf("panic in oracle: %v %s", v, shortStack())
				}
			}()
			s.After(x)
		}()
	}
	return e, x
}

func (s *Scenario) bounded(r *Report, bound int, deadline time.Time, shard, shards int) bool {
	opt := s.Opt
	opt.Bound = bound
	var visits map[uint64]int8
	if !opt.NoPrune {
		visits = map[uint64]int8{}
	}
	root := true
	stack := []job{{}}
	for len(stack) > 0 {
		if !deadline.IsZero() && time.Now().After(deadline) {
			return false
		}
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		v := visits
		if root && shards > 1 {
			v = nil
		}
		e, x := s.run(&opt, j.prefix, j.sigs, v, false)
		r.Execs++
		r.Steps += e.steps
		r.Points += len(e.points)
		r.States += e.states
		if v == nil {
			r.States += len(e.points)
		}
		r.Hits += e.hits
		if len(e.points) > r.MaxPoints {
			r.MaxPoints = len(e.points)
		}
		if e.steps > r.MaxSteps {
			r.MaxSteps = e.steps
		}
		if e.horizon {
			r.Horizons++
		}
		if e.diverged != "" {
			r.Diverged = s.Name + ": " + e.diverged
			return true
		}
		if !e.pruned {
			sort.Strings(x.out)
			r.Outcomes[strings.Join(x.out, " ")]++
		}
		if e.fail != "" {
			ch := make([]int, len(e.points))
			for i, p := range e.points {
				ch[i] = p.chosen
			}
			s.confirm(r, ch, e.fail)
			return true
		}
		// branch
		n := 0
		sigs := make([]uint64, len(e.points))
		ch := make([]int, len(e.points))
		for i, p := range e.points {
			sigs[i] = p.sig
			ch[i] = p.chosen
		}
		var add []job
		for i := len(j.prefix); i < len(e.points); i++ {
			p := e.points[i]
			for alt := 0; alt < p.n; alt++ {
				if alt == p.chosen {
					continue
				}
				c := p.costHere
				if p.cost != nil {
					c += int(p.cost[alt])
				}
				if c > bound {
					continue
				}
				n++
				if root && shards > 1 && n%shards != shard {
					continue
				}
				np := append(append([]int(nil), ch[:i]...), alt)
				add = append(add, job{np, append([]uint64(nil), sigs[:i+1]...)})
			}
		}
		// deepest alternative first
		stack = append(stack, add...)
		root = false
	}
	return true
}

// confirm replays a failing schedule and records the trace.
func (s *Scenario) confirm(r *Report, ch []int, msg string) {
	opt := s.Opt
	opt.Bound = 99
	same := 0
	var last *Exec
	for i := 0; i < 5; i++ {
		e, _ := s.run(&opt, ch, nil, nil, i == 4)
		if e.fail == msg {
			same++
		}
		last = e
	}
	r.Replayed = same
	r.Choices = ch
	r.Violation = msg
	r.Trace = last.trace
	if same < 5 {
		r.Diverged = fmt.Sprintf("%s: violation not reproducible (%d of 5): %s / %s", s.Name, same, msg, last.fail)
	}
}

// Replay runs one schedule and returns its failure and trace.
func (s *Scenario) Replay(ch []int) (string, []string) {
	opt := s.Opt
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	e, _ := s.run(&opt, ch, nil, nil, true)
	return e.fail, e.trace
}

// RunOnce runs body under the scheduler with the default schedule and returns
// what went wrong.
func RunOnce(body func()) string {
	s := &Scenario{Name: "once", Body: func(x *X) { body() }}
	o := Options{MaxSteps: 200000}
	e, _ := s.run(&o, nil, nil, nil, false)
	return e.fail
}
