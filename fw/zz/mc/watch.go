//go:build go1.21

package mc

import (
	"encoding/json"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Code under test that never returns to the scheduler (an endless loop) would
// hang a check.  A watchdog in every worker notices that nothing has moved
// for hangAfter and reports it.

const (
	hangAfter = 60 * time.Second
	memLimit  = 3500 << 20
)

var (
	progress uint64 // bumped by every visible operation and evaluation
	inside   int32  // executions and guarded calls of code under test
)

func enter() { atomic.AddInt32(&inside, 1); atomic.AddUint64(&progress, 1) }
func leave() { atomic.AddInt32(&inside, -1); atomic.AddUint64(&progress, 1) }

// Alive tells the watchdog that a long guarded call is making progress.
func Alive() { atomic.AddUint64(&progress, 1) }

// moduleFrame matches a frame of the code under test.
var moduleFrame = regexp.MustCompile(`(?m)^github\.com/companyzero/zkc/([a-z0-9/]+)[.(].*$`)

// culprit returns the innermost frame of code under test in a goroutine dump.
func culprit(stack string) string {
	for _, m := range moduleFrame.FindAllStringSubmatch(stack, -1) {
		if strings.HasPrefix(m[1], "zz") && m[1] != "zz/session2" {
			continue
		}
		l := m[0]
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l
	}
	return ""
}

func watchdog(c *Ctx) {
	// a runaway allocation ends the worker, not the machine
	var rl syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &rl) == nil && rl.Cur > memLimit {
		rl.Cur = memLimit
		syscall.Setrlimit(syscall.RLIMIT_AS, &rl)
	}
	go func() {
		last, since := atomic.LoadUint64(&progress), time.Now()
		tick := time.Now()
		for {
			time.Sleep(time.Second)
			p := atomic.LoadUint64(&progress)
			// a pause of the whole process is no hang
			if time.Since(tick) > 5*time.Second {
				since = time.Now()
			}
			tick = time.Now()
			if p != last || atomic.LoadInt32(&inside) == 0 {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) < hangAfter {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			at := ""
			gs := strings.Split(string(buf), "\n\n")
			for _, g := range gs {
				if h, _, _ := strings.Cut(g, "\n"); strings.Contains(h, "[running") || strings.Contains(h, "[runnable") {
					if at = culprit(g); at != "" {
						break
					}
				}
			}
			if at == "" {
				// nothing of the code under test is running: the harness is stuck
				c.Errorf("no progress for %v\n%.6000s", hangAfter, string(buf))
			} else {
				c.Violate("hang", nil, "endless loop: nothing happened for %v in %s", hangAfter, at)
			}
			b, _ := json.Marshal(c.R)
			os.Stdout.Write([]byte("\nRESULT "))
			os.Stdout.Write(b)
			os.Stdout.Write([]byte("\n"))
			os.Exit(0)
		}
	}()
}

// crashed decides whether a worker died because of the code under test.  The
// runtime ends a process on stack exhaustion, runaway allocation, concurrent
// map access and the like; none can be recovered from.
func crashed(stderr string) (string, bool) {
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 {
		if i = strings.Index(stderr, "panic: "); i < 0 {
			return "", false
		}
	}
	line, rest, _ := strings.Cut(stderr[i:], "\n")
	j := strings.Index(rest, "goroutine ")
	if j < 0 {
		return "", false
	}
	// the goroutine that failed is printed first
	var g string
	for _, b := range strings.Split(rest[j:], "\n\n") {
		if at := culprit(b); at != "" && strings.HasPrefix(b, "goroutine ") {
			g = at
			break
		}
		if strings.HasPrefix(b, "goroutine ") && !strings.Contains(b, "goroutine 0 ") {
			break
		}
	}
	if g == "" {
		return "", false
	}
	return line + " in " + g, true
}
