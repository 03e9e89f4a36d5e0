//go:build go1.22

package zkclient

import "github.com/companyzero/zkc/zz/vflag"

// Main runs the client with the given configuration file.
func Main(cfg string) error {
	vflag.Line = []string{"-cfg", cfg}
	return _main()
}
