//go:build go1.21

package mc

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string // non-triviality rule for enumeration levels
	Run   func(c *Ctx)
	// Assumptions documented in the evidence.
	Assumptions []string
}

// Violation is a reported failure.
type Violation struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Replay interface{} `json:"replay,omitempty"`
}

// Result is what a worker hands to its parent.
type Result struct {
	States      int                    `json:"states"`
	Transitions int                    `json:"transitions"`
	Schedules   int                    `json:"schedules"`
	Evals       int                    `json:"evaluations"`
	Distinct    map[string]int         `json:"distinct"`
	Traces      int                    `json:"traces"`
	Samples     []interface{}          `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Errors      []string               `json:"errors"`
	Reports     []*Report              `json:"reports"`
	Incomplete  []string               `json:"incomplete"`
	Notes       map[string]interface{} `json:"notes"`
}

// Ctx is the context of one worker of a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Worker   int
	Workers  int
	Deadline time.Time
	R        Result
	nscen    int
	only     string
	replay   *replayFile
}

type replayFile struct {
	Property string      `json:"property"`
	Scenario string      `json:"scenario"`
	Choices  []int       `json:"choices"`
	Msg      string      `json:"msg"`
	Trace    []string    `json:"trace,omitempty"`
	Data     interface{} `json:"data,omitempty"`
}

// Quick reports the tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier and t otherwise.
func (c *Ctx) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

// Mine reports whether work item i belongs to this worker.
func (c *Ctx) Mine(i int) bool { return i%c.Workers == c.Worker }

// MineS is Mine for a string key.
func (c *Ctx) MineS(s string) bool { return int(HashString(s)%uint64(c.Workers)) == c.Worker }

// Expired reports whether the deadline has passed.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		if len(c.R.Incomplete) < 20 {
			c.Incomplete("deadline")
		}
		return true
	}
	return false
}

// Incomplete records that some part was capped.
func (c *Ctx) Incomplete(what string) {
	for _, w := range c.R.Incomplete {
		if w == what {
			return
		}
	}
	c.R.Incomplete = append(c.R.Incomplete, what)
}

// Eval counts an evaluation with an outcome class.
func (c *Ctx) Eval(class string) {
	Alive()
	c.R.Evals++
	if c.R.Distinct == nil {
		c.R.Distinct = map[string]int{}
	}
	c.R.Distinct[class]++
}

// Sample keeps an example.
func (c *Ctx) Sample(v interface{}) {
	if len(c.R.Samples) < 4 {
		c.R.Samples = append(c.R.Samples, v)
	}
}

// Violate records a violation.
func (c *Ctx) Violate(key string, replay interface{}, format string, a ...interface{}) {
	for _, v := range c.R.Violations {
		if v.Key == key {
			return
		}
	}
	if len(c.R.Violations) < 50 {
		c.R.Violations = append(c.R.Violations, Violation{key, fmt.Sprintf(format, a...), replay})
	}
}

// Errorf records a harness error.
func (c *Ctx) Errorf(format string, a ...interface{}) {
	c.R.Errors = append(c.R.Errors, fmt.Sprintf(format, a...))
}

// Note adds a coverage detail.
func (c *Ctx) Note(k string, v interface{}) {
	if c.R.Notes == nil {
		c.R.Notes = map[string]interface{}{}
	}
	c.R.Notes[k] = v
}

// Try runs f and converts panics into violations with the given key.
func (c *Ctx) Try(key string, replay interface{}, f func()) (ok bool) {
	enter()
	defer leave()
	defer func() {
		if r := recover(); r != nil {
			ok = false
			if fe, k := r.(FailError); k {
				c.Violate(key, replay, "%s", string(fe))
				return
			}
			c.Violate(key, replay, "panic: %v at %s", r, shortStack())
		}
	}()
	f()
	return true
}

// Guard runs f; it returns the panic message or the Fail message, or "".
func Guard(f func()) (msg string) {
	enter()
	defer leave()
	defer func() {
		if r := recover(); r != nil {
			if fe, k := r.(FailError); k {
				msg = string(fe)
				return
			}
			msg = fmt.Sprintf("panic: %v at %s", r, shortStack())
		}
	}()
	f()
	return ""
}

// Scenario explores s, or this worker's share of it.
func (c *Ctx) Scenario(s *Scenario) {
	c.nscen++
	if c.replay != nil {
		if c.replay.Scenario == s.Name {
			msg, tr := s.Replay(c.replay.Choices)
			for _, l := range tr {
				fmt.Println(l)
			}
			fmt.Printf("replay of %s: %q\n", s.Name, msg)
		}
		return
	}
	if c.only != "" {
		if ok, _ := regexp.MatchString(c.only, s.Name); !ok {
			return
		}
	}
	sh, shs := 0, 1
	if s.Shard {
		sh, shs = c.Worker, c.Workers
	} else if !c.Mine(c.nscen) {
		return
	}
	if c.Expired() {
		c.Incomplete("scenario " + s.Name + " not started")
		return
	}
	// two runs of the default schedule must agree before anything else
	o := s.Opt
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	e1, x1 := s.run(&o, nil, nil, nil, false)
	e2, x2 := s.run(&o, nil, nil, nil, false)
	if e1.fail != e2.fail || len(e1.points) != len(e2.points) || e1.sigLast() != e2.sigLast() ||
		strings.Join(x1.out, "|") != strings.Join(x2.out, "|") {
		// keep traces to explain
		e1, _ = s.run(&o, nil, nil, nil, true)
		e2, _ = s.run(&o, nil, nil, nil, true)
		d := "-"
		for i := 0; i < len(e1.trace) && i < len(e2.trace); i++ {
			if e1.trace[i] != e2.trace[i] {
				d = e1.trace[i] + " / " + e2.trace[i]
				break
			}
		}
		c.Errorf("%s: two runs of the same schedule differ: %q %q points %d %d: %s", s.Name, e1.fail, e2.fail, len(e1.points), len(e2.points), d)
		return
	}
	r := s.Explore(c.Deadline, sh, shs)
	c.R.Schedules += r.Execs
	c.R.States += r.States
	c.R.Transitions += r.Steps
	c.R.Evals += r.Execs
	if c.R.Distinct == nil {
		c.R.Distinct = map[string]int{}
	}
	for k, v := range r.Outcomes {
		c.R.Distinct[s.Name+": "+k] += v
	}
	if r.Diverged != "" {
		c.Errorf("%s", r.Diverged)
	}
	if !r.Done {
		c.Incomplete(fmt.Sprintf("scenario %s: bound %d completed", s.Name, r.Bound))
	}
	if r.Violation != "" && r.Diverged == "" {
		c.Violate(s.Name, replayFile{Scenario: s.Name, Choices: r.Choices, Msg: r.Violation, Trace: r.Trace}, "%s: %s", s.Name, r.Violation)
	}
	tr := r.Trace
	r.Trace = nil
	c.R.Reports = append(c.R.Reports, r)
	if len(c.R.Samples) < 2 && len(tr) == 0 {
		_, t := s.Replay(nil)
		if len(t) > 40 {
			t = append(t[:40], "...")
		}
		c.Sample(map[string]interface{}{"scenario": s.Name, "default_schedule": t})
	}
}

func (e *Exec) sigLast() uint64 { return e.sig() }

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

type known struct{ property, key, text string }

func loadKnown(f string) []known {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []known
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

// Main is the entry point of every check binary.
func Main() {
	id := flag.String("check", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "i/n")
	secs := flag.Int("secs", 60, "time budget")
	out := flag.String("out", "", "evidence file")
	replays := flag.String("replays", "", "directory for replay artefacts")
	knownF := flag.String("known", "", "known findings file")
	workers := flag.Int("workers", 0, "number of worker processes")
	only := flag.String("only", "", "scenario regexp")
	rep := flag.String("replay", "", "replay file")
	flag.Parse()
	start := time.Now()
	ch := checks[*id]
	if ch == nil {
		fmt.Fprintf(os.Stderr, "no check %q in this binary\n", *id)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *rep != "" {
		b, err := os.ReadFile(*rep)
		rf := &replayFile{}
		if err == nil {
			err = json.Unmarshal(b, rf)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		c := &Ctx{ID: *id, Tier: *tier, Workers: 1, Deadline: start.Add(time.Hour), replay: rf}
		ch.Run(c)
		os.Exit(0)
	}
	if *worker != "" || *workers == 1 {
		c := &Ctx{ID: *id, Tier: *tier, Seed: seed, Workers: 1, only: *only}
		if *worker != "" {
			fmt.Sscanf(*worker, "%d/%d", &c.Worker, &c.Workers)
		}
		c.Deadline = start.Add(time.Duration(*secs) * time.Second)
		if *worker != "" {
			watchdog(c)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Errorf("harness panic: %v\n%s", r, shortStack())
				}
			}()
			ch.Run(c)
		}()
		b, err := json.Marshal(c.R)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if *worker == "" {
			os.Exit(finish(ch, *tier, seed, []*Result{&c.R}, *out, *replays, *knownF, start, *secs))
		}
		os.Stdout.Write([]byte("\nRESULT "))
		os.Stdout.Write(b)
		os.Stdout.Write([]byte("\n"))
		os.Exit(0)
	}
	n := *workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	res := make([]*Result, n)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			defer func() { done <- i }()
			cmd := exec.Command(os.Args[0], "-check", *id, "-tier", *tier, "-secs", strconv.Itoa(*secs),
				"-worker", fmt.Sprintf("%d/%d", i, n), "-only", *only)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			err := cmd.Start()
			if err == nil {
				// workers watch their deadline; this is a backstop
				kill := time.AfterFunc(time.Duration(*secs)*time.Second*3/2+150*time.Second, func() { cmd.Process.Kill() })
				err = cmd.Wait()
				kill.Stop()
			}
			r := &Result{}
			k := bytes.LastIndex(so.Bytes(), []byte("\nRESULT "))
			if k < 0 {
				tail := se.String()
				if msg, ok := crashed(tail); ok {
					r.Violations = append(r.Violations, Violation{Key: "fatal", Msg: "the process ended: " + msg})
					res[i] = r
					return
				}
				if len(tail) > 6000 {
					tail = tail[:3000] + "\n...\n" + tail[len(tail)-3000:]
				}
				r.Errors = append(r.Errors, fmt.Sprintf("worker %d: %v\n%s", i, err, tail))
			} else if err := json.Unmarshal(so.Bytes()[k+8:], r); err != nil {
				r.Errors = append(r.Errors, fmt.Sprintf("worker %d: %v", i, err))
			}
			res[i] = r
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	os.Exit(finish(ch, *tier, seed, res, *out, *replays, *knownF, start, *secs))
}

func finish(ch *Check, tier string, seed int64, res []*Result, out, replays, knownF string, start time.Time, secs int) int {
	var t Result
	t.Distinct = map[string]int{}
	t.Notes = map[string]interface{}{}
	reps := map[string]*Report{}
	seenV := map[string]bool{}
	for _, r := range res {
		t.States += r.States
		t.Transitions += r.Transitions
		t.Schedules += r.Schedules
		t.Evals += r.Evals
		t.Traces += r.Traces
		for k, v := range r.Distinct {
			t.Distinct[k] += v
		}
		for _, s := range r.Samples {
			if len(t.Samples) < 4 {
				t.Samples = append(t.Samples, s)
			}
		}
		for _, v := range r.Violations {
			if !seenV[v.Key] {
				seenV[v.Key] = true
				t.Violations = append(t.Violations, v)
			}
		}
		t.Errors = append(t.Errors, r.Errors...)
		for _, w := range r.Incomplete {
			dup := false
			for _, x := range t.Incomplete {
				dup = dup || x == w
			}
			if !dup {
				t.Incomplete = append(t.Incomplete, w)
			}
		}
		for k, v := range r.Notes {
			if f, ok := v.(float64); ok {
				if o, ok := t.Notes[k].(float64); ok {
					v = o + f
				}
			}
			t.Notes[k] = v
		}
		for _, p := range r.Reports {
			o := reps[p.Name]
			if o == nil {
				reps[p.Name] = p
				continue
			}
			o.Execs += p.Execs
			o.Steps += p.Steps
			o.States += p.States
			o.Hits += p.Hits
			o.Done = o.Done && p.Done
			if p.Bound < o.Bound {
				o.Bound = p.Bound
			}
			for k, v := range p.Outcomes {
				o.Outcomes[k] += v
			}
		}
	}
	var scen []map[string]interface{}
	var names []string
	for n := range reps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := reps[n]
		scen = append(scen, map[string]interface{}{
			"scenario": n, "schedules": p.Execs, "transitions": p.Steps, "states": p.States, "pruned": p.Hits,
			"deviation_bound_completed": p.Bound, "complete": p.Done, "distinct_outcomes": len(p.Outcomes), "longest": p.MaxPoints})
	}
	if len(scen) > 60 {
		scen = append(scen[:60], map[string]interface{}{"more": len(names) - 60})
	}
	kn := loadKnown(knownF)
	viol := []string{}
	code := 0
	knownHit := []string{}
	sort.Slice(t.Violations, func(i, j int) bool { return t.Violations[i].Key < t.Violations[j].Key })
	for _, v := range t.Violations {
		matched := false
		for _, k := range kn {
			if k.property == ch.ID && k.key == strings.ReplaceAll(v.Key, " ", "_") {
				matched = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", ch.ID, k.text, k.key)
				knownHit = append(knownHit, k.key)
			}
		}
		if matched {
			continue
		}
		os.MkdirAll(replays, 0755)
		p := filepath.Join(replays, fmt.Sprintf("%s-%016x.json", ch.ID, HashString(v.Key)))
		b, _ := json.MarshalIndent(v, "", " ")
		if m, ok := v.Replay.(map[string]interface{}); ok && m["scenario"] != nil {
			m["property"] = ch.ID
			b, _ = json.MarshalIndent(m, "", " ")
		} else if m, ok := v.Replay.(replayFile); ok {
			m.Property = ch.ID
			b, _ = json.MarshalIndent(m, "", " ")
		}
		os.WriteFile(p, b, 0644)
		if len(viol) < 5 {
			fmt.Printf("%s\n", v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
		}
		viol = append(viol, v.Key+": "+v.Msg)
		code = 1
	}
	if len(t.Samples) == 0 {
		t.Samples = []interface{}{"none"}
	}
	cov := map[string]interface{}{
		"samples":             t.Samples,
		"rule":                ch.Rule,
		"incomplete":          t.Incomplete,
		"known_findings_seen": knownHit,
		"notes":               t.Notes,
		"distinct_nontrivial": len(t.Distinct),
	}
	if len(scen) > 0 {
		cov["scenarios"] = scen
	}
	if ch.Level == "model_checking" {
		cov["states"] = t.States
		cov["transitions"] = t.Transitions
		cov["traces_validated_against_impl"] = t.Schedules + t.Traces
		if t.Evals > t.Schedules {
			cov["evaluations"] = t.Evals - t.Schedules
		}
	} else {
		cov["evaluations"] = t.Evals
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"exhaustive": len(t.Incomplete) == 0 && len(t.Errors) == 0,
		"violations": len(viol), "violation_messages": viol, "assumptions": ch.Assumptions,
	}
	if ch.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if out != "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			os.MkdirAll(filepath.Dir(out), 0755)
			err = os.WriteFile(out, append(b, '\n'), 0644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}
	fmt.Printf("%s %s: schedules=%d states=%d transitions=%d evaluations=%d distinct=%d incomplete=%d wall=%.1fs\n", ch.ID, tier,
		t.Schedules, t.States, t.Transitions, t.Evals, len(t.Distinct), len(t.Incomplete), time.Since(start).Seconds())
	for _, w := range t.Incomplete {
		fmt.Println("  incomplete:", w)
	}
	if len(t.Errors) > 0 && code == 0 {
		for i, e := range t.Errors {
			if i < 4 {
				fmt.Fprintln(os.Stderr, "ERROR:", e)
			}
		}
		return 3
	}
	return code
}
