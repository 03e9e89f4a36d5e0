//go:build go1.21

// Package debugq has the API of package debug and keeps nothing.  The real
// package is checked on its own; here its lock would only add schedules.
package debugq

import "errors"

var (
	ErrNoSubsystems       = errors.New("no subsystems specified")
	ErrDuplicateSubsystem = errors.New("duplicate subsystem")
)

type Debug struct {
	// Tap, when set, observes every message.
	Tap func(kind string, id int, format string, args ...interface{})
}

func (d *Debug) tap(kind string, id int, format string, args ...interface{}) {
	if d.Tap != nil {
		d.Tap(kind, id, format, args...)
	}
}

func (d *Debug) Log(id int, f string, a ...interface{})      { d.tap("log", id, f, a...) }
func (d *Debug) Info(id int, f string, a ...interface{})     { d.tap("info", id, f, a...) }
func (d *Debug) Warn(id int, f string, a ...interface{})     { d.tap("warn", id, f, a...) }
func (d *Debug) Error(id int, f string, a ...interface{})    { d.tap("error", id, f, a...) }
func (d *Debug) Critical(id int, f string, a ...interface{}) { d.tap("critical", id, f, a...) }
func (d *Debug) Dbg(id int, f string, a ...interface{})      { _ = d.tap }
func (d *Debug) T(id int, f string, a ...interface{})        { _ = d.tap }
func New(filename, format string) (*Debug, error)            { return &Debug{}, nil }
func (d *Debug) Register(id int, name string) error          { return nil }
func (d *Debug) EnableDebug()                                {}
func (d *Debug) DisableDebug()                               {}
func (d *Debug) EnableTrace()                                {}
func (d *Debug) DisableTrace()                               {}
