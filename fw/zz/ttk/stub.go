//go:build go1.21

// Package ttk is the real one without a terminal: queued work is run by a
// managed thread, or by Drain outside of executions.
package ttk

import (
	"fmt"

	"github.com/companyzero/zkc/zz/mc"
	"github.com/nsf/termbox-go"
)

var (
	queue   []func()
	queues  map[string]*[]func()
	lastE   *mc.Exec
	waiting bool
	// Exited records a call of Exit or Panic.
	Exited string
)

func stubReset() {
	queue = nil
	windows = map[int]*Window{}
	windower2window = map[Windower]*Window{}
	keyC = make(chan Key, 1024)
	maxX, maxY = 100, 30
	focus, prevFocus = nil, nil
	All = nil
	Exited = ""
}

func init() { stubReset() }

// Reset forgets everything.
func Reset() { stubReset() }

// Drain runs queued work outside of executions.
func Drain() {
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		f()
	}
}

// Queue queues work.
func Queue(f func()) {
	e := mc.Active()
	if e == nil {
		queue = append(queue, f)
		return
	}
	if lastE != e {
		lastE = e
		queue = nil
		queues = map[string]*[]func(){}
	}
	// every process has a toolkit of its own
	p := mc.Group()
	name := "ttkqueue" + p
	q := queues[p]
	if q == nil {
		q = &[]func(){f}
		queues[p] = q
		obj := mc.HashString(name)
		mc.GoGroup(p, "ui", func() {
			for {
				mc.Block("ui", "", obj, func() bool { return len(*q) > 0 })
				g := (*q)[0]
				*q = (*q)[1:]
				g()
			}
		})
		return
	}
	mc.Touch(name, true)
	*q = append(*q, f)
}

// Init does nothing.
func Init() error { return nil }

// Deinit does nothing.
func Deinit() {}

// KeyChannel returns the key channel.
func KeyChannel() chan Key { return keyC }

// NewWindow creates a window at once.
func NewWindow(manager Windower) *Window {
	w := &Window{
		id: lastWindowID, mgr: manager, x: maxX, y: maxY, focus: -1,
		backingStore: make([]Cell, maxX*maxY),
		widgets:      make([]Widgeter, 0, 16),
	}
	lastWindowID++
	windows[w.id] = w
	windower2window[manager] = w
	All = append(All, w)
	manager.Init(w)
	return w
}

// All lists the windows in the order of their creation.
var All []*Window

// Type returns the type of the window's manager.
func (w *Window) Type() string { return fmt.Sprintf("%T", w.mgr) }

func (w *Window) edit(n int) *Edit {
	for _, x := range w.widgets {
		if e, ok := x.(*Edit); ok {
			if n == 0 {
				return e
			}
			n--
		}
	}
	return nil
}

// Fill sets the text of the n-th input field.
func (w *Window) Fill(n int, text string) {
	e := w.edit(n)
	*e.target = text
	e.SetText(e.target, true)
}

// Enter presses the enter key in the n-th input field, like the application's
// main loop does.
func (w *Window) Enter(n int) {
	w.mgr.KeyHandler(w, Key{Key: termbox.KeyEnter, Window: w.mgr, Widget: w.edit(n)})
}

// Key presses a key in the n-th input field.
func (w *Window) Key(n int, k termbox.Key) {
	w.mgr.KeyHandler(w, Key{Key: k, Window: w.mgr, Widget: w.edit(n)})
}

// Press hands a key to the application's main loop.
func Press(k termbox.Key) { mc.Send((chan<- Key)(keyC))(Key{Key: k}) }

// Lists returns the contents of the window's lists.
func (w *Window) Lists() (out [][]string) {
	for _, x := range w.widgets {
		if l, ok := x.(*List); ok {
			out = append(out, append([]string(nil), l.content...))
		}
	}
	return
}

// View is a list as the user sees it.
type View struct {
	Lines   []string
	Visible bool
}

// Views returns the window's lists.
func (w *Window) Views() (out []View) {
	for _, x := range w.widgets {
		if l, ok := x.(*List); ok {
			out = append(out, View{append([]string(nil), l.content...), l.visibility != VisibilityHide})
		}
	}
	return
}

// Labels returns the texts of labels and status lines.
func (w *Window) Labels() (out []string) {
	for _, x := range w.widgets {
		if l, ok := x.(*Label); ok {
			out = append(out, string(l.text))
		}
	}
	return
}

// Display draws nothing.
func (l *List) Display(where Location) {
	switch where {
	case Top, Up, Down:
		l.paging = true
	case Bottom:
		l.paging = false
	}
}

func (w *Window) printf(x, y int, a Attributes, format string, args ...interface{}) {}

// DefaultAttributes returns the default attributes.
func DefaultAttributes() Attributes { return defaultAttributes() }
func flush()                        {}
func setCursor(x, y int)            {}

// Flush does nothing.
func Flush() {}

// Focus focuses.
func Focus(w *Window) { Queue(func() { prevFocus, focus = focus, w }) }

// Focused returns the focused window.
func Focused() *Window { return focus }

// FocusPrevious focuses on the previous window.
func FocusPrevious() { Queue(func() { focus, prevFocus = prevFocus, focus }) }

func resizeAndRender(w *Window) {}

// Panic fails.
func Panic(format string, args ...interface{}) {
	Exited = fmt.Sprintf(format, args...)
	panic(mc.FailError("ttk.Panic: " + Exited))
}

// Exit fails.
func Exit(format string, args ...interface{}) {
	Exited = fmt.Sprintf(format, args...)
	if mc.Managed() {
		mc.Fail("ttk.Exit: %s", Exited)
	}
	panic(mc.FailError("ttk.Exit: " + Exited))
}
