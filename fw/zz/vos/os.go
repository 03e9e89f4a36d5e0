//go:build go1.21

// Package vos stands in for package os.
package vos

import (
	"fmt"
	"io/fs"
	"os"

	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vfs"
)

type File = vfs.File

var (
	Stdin  = vfs.Wrap(os.Stdin)
	Stdout = vfs.Wrap(os.Stdout)
	Stderr = vfs.Wrap(os.Stderr)
)

func Open(n string) (*File, error)                              { return vfs.OpenFile(n, os.O_RDONLY, 0) }
func Create(n string) (*File, error)                            { return vfs.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func OpenFile(n string, f int, m fs.FileMode) (*File, error)     { return vfs.OpenFile(n, f, m) }
func Stat(n string) (fs.FileInfo, error)                        { return vfs.Stat(n) }
func Lstat(n string) (fs.FileInfo, error)                       { return vfs.Stat(n) }
func Mkdir(n string, m fs.FileMode) error                       { return vfs.Mkdir(n, m) }
func MkdirAll(n string, m fs.FileMode) error                    { return vfs.MkdirAll(n, m) }
func Remove(n string) error                                     { return vfs.Remove(n) }
func RemoveAll(n string) error                                  { return vfs.RemoveAll(n) }
func Rename(a, b string) error                                  { return vfs.Rename(a, b) }
func Link(a, b string) error                                    { return vfs.Link(a, b) }
func Symlink(a, b string) error                                 { return vfs.Link(a, b) }
func Readlink(a string) (string, error)                         { return "", os.ErrInvalid }
func ReadFile(n string) ([]byte, error)                         { return vfs.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error         { return vfs.WriteFile(n, d, m) }
func ReadDir(n string) ([]fs.DirEntry, error)                   { return vfs.ReadDir(n) }
func Truncate(n string, s int64) error                          { return vfs.TruncateName(n, s) }
func Chmod(n string, m fs.FileMode) error                       { return vfs.Chmod(n, m) }
func Chown(n string, u, g int) error                            { return nil }
func SameFile(a, b fs.FileInfo) bool                            { return vfs.SameFile(a, b) }
func CreateTemp(d, p string) (*File, error)                     { return vfs.Temp(d, p) }
func MkdirTemp(d, p string) (string, error)                     { return vfs.TempDir(d, p) }
func TempDir() string                                           { return "/tmp" }
func Getwd() (string, error)                                    { return "/cwd", nil }
func Chdir(string) error                                        { return nil }
func UserHomeDir() (string, error)                              { return "/home", nil }
func Hostname() (string, error)                                 { return "host", nil }
func NewFile(fd uintptr, n string) *File                        { return vfs.Wrap(os.NewFile(fd, n)) }

// OnExit, when set, is told when a program exits; it must not return.
var OnExit func(code int)

// Exit is a failure of the code under test.
func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	if mc.Managed() {
		mc.Fail("os.Exit(%d)", code)
	}
	panic(mc.FailError(fmt.Sprintf("os.Exit(%d)", code)))
}
