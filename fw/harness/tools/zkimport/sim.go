//go:build go1.22

package zkimport

// Main is the whole program.
func Main() error { return _main() }
