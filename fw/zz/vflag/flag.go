//go:build go1.21

// Package vflag parses the command line again and again.
package vflag

import (
	"flag"
	"time"
)

// Line is the command line.
var Line []string

var set = flag.NewFlagSet("test", flag.PanicOnError)
var last = set

func String(n, v, u string) *string                               { return set.String(n, v, u) }
func Bool(n string, v bool, u string) *bool                       { return set.Bool(n, v, u) }
func Int(n string, v int, u string) *int                          { return set.Int(n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration { return set.Duration(n, v, u) }
func Parse() {
	last = set
	set = flag.NewFlagSet("test", flag.PanicOnError)
	last.Parse(Line)
}
func Uint(n string, v uint, u string) *uint { return set.Uint(n, v, u) }
func Args() []string                        { return last.Args() }
func NArg() int                             { return last.NArg() }
func NFlag() int                            { return last.NFlag() }
func Arg(i int) string                      { return last.Arg(i) }

// Lookup returns a flag of the command line parsed last.
func Lookup(n string) *flag.Flag { return last.Lookup(n) }
