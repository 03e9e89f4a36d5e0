//go:build go1.22

package zkserverdump

// Main is the whole program.
func Main() error { return _main() }
