//go:build go1.21

// Package vioutil stands in for io/ioutil.
package vioutil

import (
	"io/fs"

	"github.com/companyzero/zkc/zz/vfs"
)

func ReadFile(n string) ([]byte, error)                 { return vfs.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return vfs.WriteFile(n, d, m) }
func ReadDir(n string) ([]fs.FileInfo, error)           { return vfs.ReadDirInfo(n) }
func TempFile(d, p string) (*vfs.File, error)           { return vfs.Temp(d, p) }
func TempDir(d, p string) (string, error)               { return vfs.TempDir(d, p) }
