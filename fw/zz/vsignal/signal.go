//go:build go1.21

// Package vsignal delivers signals on request.
package vsignal

import "os"

// Waiting are the channels of those who wait for signals.
var Waiting []chan<- os.Signal

// Notify registers a channel.
func Notify(c chan<- os.Signal, sig ...os.Signal) { Waiting = append(Waiting, c) }

// Stop does nothing.
func Stop(c chan<- os.Signal) {}
