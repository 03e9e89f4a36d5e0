//go:build go1.21

// Package vfs is an in-memory file system with an operation log, crash
// states, fault injection and scheduling points.
package vfs

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/companyzero/zkc/zz/mc"
)

type inode struct {
	dir    bool
	kids   map[string]*inode
	data   []byte
	synced []byte // content guaranteed after a power loss
	dirty  bool   // data not synced
	mode   fs.FileMode
	mtime  int64
	id     int
}

// Rec is one logged mutating operation.
type Rec struct {
	Op   string
	Path string
	To   string
	N    int
	data []byte
	off  int
	ino  int
	mode fs.FileMode
}

func (r Rec) String() string {
	s := r.Op + " " + r.Path
	if r.To != "" {
		s += " -> " + r.To
	}
	if r.Op == "write" {
		s += fmt.Sprintf(" %d bytes at %d", r.N, r.off)
	}
	return s
}

// FS is one file system.
type FS struct {
	root   *inode
	ino    int
	Log    []Rec
	tmp    int
	Open   int
	Quiet  []string // prefixes without scheduling points and log records
	Yield  bool     // scheduling points
	Fault  func(op, p string) error
	Short  func(op, p string, n int) int
	OnOp   func(op, p string)
	OnMut  func(op, p string)        // before changes
	Torn   func(p string, n int) int // how much of a write happens before the process dies; negative: all of it
	Ops    int
	Closed bool // after a simulated crash every operation fails
}

// Cur is the file system in use.
var Cur = New()

// ErrCrash is returned by operations after the crash point.
var ErrCrash = errors.New("vfs: crashed")

// New returns an empty file system.
func New() *FS {
	f := &FS{Yield: true}
	f.root = f.mk(true, 0755)
	f.root.kids["tmp"] = f.mk(true, 0777)
	return f
}

// Reset installs a new file system.
func Reset() *FS {
	Cur = New()
	return Cur
}

func (f *FS) mk(dir bool, mode fs.FileMode) *inode {
	f.ino++
	i := &inode{dir: dir, mode: mode, id: f.ino}
	if dir {
		i.kids = map[string]*inode{}
	}
	return i
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

// Clone copies the tree (not the log).
func (f *FS) Clone() *FS {
	n := &FS{ino: f.ino, tmp: f.tmp, Yield: f.Yield, Quiet: f.Quiet}
	n.root = cloneInode(f.root)
	return n
}

func cloneInode(i *inode) *inode {
	c := *i
	c.data = append([]byte(nil), i.data...)
	c.synced = append([]byte(nil), i.synced...)
	if i.dir {
		c.kids = map[string]*inode{}
		for k, v := range i.kids {
			c.kids[k] = cloneInode(v)
		}
	}
	return &c
}

func (f *FS) walk(p string) (*inode, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	n := f.root
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if len(s) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		k := n.kids[s]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

func (f *FS) parent(p string) (*inode, string, error) {
	d, b := path.Split(p)
	if strings.ContainsRune(p, 0) {
		return nil, "", syscall.EINVAL
	}
	if len(b) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	n, err := f.walk(path.Clean(d))
	if err != nil {
		return nil, "", err
	}
	if !n.dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, b, nil
}

func (f *FS) quiet(p string) bool {
	for _, q := range f.Quiet {
		if strings.HasPrefix(p, q) {
			return true
		}
	}
	return false
}

func acc(p string, write bool, list bool, extra ...mc.Access) []mc.Access {
	var a []mc.Access
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			a = append(a, mc.Access{Obj: mc.HashString("e:" + p[:i])})
		}
	}
	a = append(a, mc.Access{Obj: mc.HashString("e:" + p), Write: write})
	if list {
		a = append(a, mc.Access{Obj: mc.HashString("l:" + path.Dir(p)), Write: true})
	}
	return append(a, extra...)
}

// point is the scheduling point before an operation; it returns an injected
// fault.
func (f *FS) point(kind, p string, mut bool, a []mc.Access) error {
	if f.quiet(p) {
		return nil
	}
	if f.Yield {
		mc.Point(kind, p, a...)
	}
	f.Ops++
	if f.OnOp != nil {
		f.OnOp(kind, p)
	}
	if mut && f.OnMut != nil {
		f.OnMut(kind, p)
	}
	if f.Closed {
		return ErrCrash
	}
	if f.Fault != nil {
		if err := f.Fault(kind, p); err != nil {
			return err
		}
	}
	return nil
}

func (f *FS) log(r Rec) {
	if f.quiet(r.Path) {
		return
	}
	f.Log = append(f.Log, r)
}

func now() int64 { return mc.PeekNano() }

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// File is an open file.
type File struct {
	name   string
	f      *FS
	n      *inode
	off    int64
	flag   int
	closed bool
	p      string
	dirPos int
	real   *os.File
}

// Wrap wraps a real file.
func Wrap(r *os.File) *File { return &File{real: r, name: r.Name()} }

// OpenFile opens.
func OpenFile(name string, flag int, mode fs.FileMode) (*File, error) {
	f := Cur
	p := clean(name)
	mut := flag&(os.O_CREATE|os.O_TRUNC) != 0
	if err := f.point("open", p, mut, acc(p, mut, mut)); err != nil {
		return nil, perr("open", name, err)
	}
	n, err := f.walk(p)
	if err == nil {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			n.data = nil
			n.dirty = true
			n.mtime = now()
			f.log(Rec{Op: "trunc", Path: p, ino: n.id})
		}
	} else {
		if err != syscall.ENOENT || flag&os.O_CREATE == 0 {
			return nil, perr("open", name, err)
		}
		d, b, err2 := f.parent(p)
		if err2 != nil {
			return nil, perr("open", name, err2)
		}
		n = f.mk(false, mode&0777)
		n.mtime = now()
		d.kids[b] = n
		f.log(Rec{Op: "create", Path: p, ino: n.id, mode: mode & 0777})
	}
	f.Open++
	return &File{name: name, f: f, n: n, flag: flag, p: p}, nil
}

// Name returns the name.
func (fl *File) Name() string { return fl.name }

func (fl *File) chk(op string) error {
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.closed {
		return perr(op, fl.name, os.ErrClosed)
	}
	return nil
}

// Read reads.
func (fl *File) Read(b []byte) (int, error) {
	if fl.real != nil {
		return fl.real.Read(b)
	}
	if err := fl.chk("read"); err != nil {
		return 0, err
	}
	if fl.n.dir {
		return 0, perr("read", fl.name, syscall.EISDIR)
	}
	if fl.flag&os.O_WRONLY != 0 {
		return 0, perr("read", fl.name, syscall.EBADF)
	}
	if err := fl.f.point("read", fl.p, false, []mc.Access{{Obj: mc.HashString(fmt.Sprint("i:", fl.n.id))}}); err != nil {
		return 0, perr("read", fl.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if fl.off >= int64(len(fl.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, fl.n.data[fl.off:])
	fl.off += int64(n)
	return n, nil
}

// ReadAt reads at off.
func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	if err := fl.chk("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(fl.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, fl.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Write writes.
func (fl *File) Write(b []byte) (int, error) {
	if fl.real != nil {
		return fl.real.Write(b)
	}
	if err := fl.chk("write"); err != nil {
		return 0, err
	}
	if fl.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", fl.name, syscall.EBADF)
	}
	err := fl.f.point("write", fl.p, true, []mc.Access{{Obj: mc.HashString(fmt.Sprint("i:", fl.n.id)), Write: true}})
	if err == ErrCrash {
		return 0, err
	}
	w := b
	if err != nil {
		w = nil
		if fl.f.Short != nil {
			w = b[:fl.f.Short("write", fl.p, len(b))]
		}
	}
	off := int(fl.off)
	if fl.flag&os.O_APPEND != 0 {
		off = len(fl.n.data)
	}
	if fl.f.Torn != nil && !fl.f.quiet(fl.p) {
		if k := fl.f.Torn(fl.p, len(w)); k >= 0 {
			fl.n.put(off, w[:k])
			mc.Die()
		}
	}
	fl.n.put(off, w)
	fl.off = int64(off + len(w))
	if len(w) > 0 {
		fl.f.log(Rec{Op: "write", Path: fl.p, N: len(w), off: off, data: append([]byte(nil), w...), ino: fl.n.id})
	}
	if err != nil {
		return len(w), perr("write", fl.name, err)
	}
	return len(b), nil
}

func (n *inode) put(off int, w []byte) {
	for len(n.data) < off {
		n.data = append(n.data, 0)
	}
	n.data = append(n.data[:off:off], append(append([]byte(nil), w...), tail(n.data, off+len(w))...)...)
	n.mtime = now()
	n.dirty = true
}

func tail(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	return b[i:]
}

// WriteString writes s.
func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

// WriteAt writes at off.
func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	o := fl.off
	fl.off = off
	n, err := fl.Write(b)
	fl.off = o
	return n, err
}

// Seek seeks.
func (fl *File) Seek(o int64, whence int) (int64, error) {
	if err := fl.chk("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		fl.off = o
	case 1:
		fl.off += o
	case 2:
		fl.off = int64(len(fl.n.data)) + o
	}
	return fl.off, nil
}

// Truncate truncates.
func (fl *File) Truncate(sz int64) error {
	if err := fl.chk("truncate"); err != nil {
		return err
	}
	if err := fl.f.point("trunc", fl.p, true, []mc.Access{{Obj: mc.HashString(fmt.Sprint("i:", fl.n.id)), Write: true}}); err != nil {
		return perr("truncate", fl.name, err)
	}
	for int64(len(fl.n.data)) < sz {
		fl.n.data = append(fl.n.data, 0)
	}
	fl.n.data = fl.n.data[:sz]
	fl.n.dirty = true
	fl.f.log(Rec{Op: "truncto", Path: fl.p, N: int(sz), ino: fl.n.id})
	return nil
}

// Sync syncs.
func (fl *File) Sync() error {
	if fl.real != nil {
		return fl.real.Sync()
	}
	if err := fl.chk("sync"); err != nil {
		return err
	}
	if err := fl.f.point("sync", fl.p, true, []mc.Access{{Obj: mc.HashString(fmt.Sprint("i:", fl.n.id)), Write: true}}); err != nil {
		return perr("sync", fl.name, err)
	}
	fl.n.synced = append([]byte(nil), fl.n.data...)
	fl.n.dirty = false
	fl.f.log(Rec{Op: "sync", Path: fl.p, ino: fl.n.id})
	return nil
}

// Close closes.
func (fl *File) Close() error {
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.real != nil {
		return fl.real.Close()
	}
	if err := fl.chk("close"); err != nil {
		return err
	}
	fl.closed = true
	fl.f.Open--
	if fl.f.Fault != nil && fl.flag&(os.O_WRONLY|os.O_RDWR) != 0 && !fl.f.quiet(fl.p) {
		if err := fl.f.Fault("close", fl.p); err != nil {
			return perr("close", fl.name, err)
		}
	}
	return nil
}

// Fd is meaningless here.
func (fl *File) Fd() uintptr {
	if fl.real != nil {
		return fl.real.Fd()
	}
	return ^uintptr(0)
}

// Chmod changes the mode.
func (fl *File) Chmod(m fs.FileMode) error {
	fl.n.mode = m
	return nil
}

// SetDeadline does nothing.
func (fl *File) SetDeadline(t time.Time) error { return nil }

// Stat stats.
func (fl *File) Stat() (fs.FileInfo, error) {
	if fl.real != nil {
		return fl.real.Stat()
	}
	if err := fl.chk("stat"); err != nil {
		return nil, err
	}
	return info(path.Base(fl.p), fl.n), nil
}

// ReadDir reads the directory.
func (fl *File) ReadDir(n int) ([]fs.DirEntry, error) {
	fi, err := fl.Readdir(n)
	var out []fs.DirEntry
	for _, v := range fi {
		out = append(out, fs.FileInfoToDirEntry(v))
	}
	return out, err
}

// Readdir reads the directory.
func (fl *File) Readdir(n int) ([]fs.FileInfo, error) {
	if err := fl.chk("readdir"); err != nil {
		return nil, err
	}
	all, err := readDir(fl.p)
	if err != nil {
		return nil, perr("readdirent", fl.name, err)
	}
	if fl.dirPos > len(all) {
		fl.dirPos = len(all)
	}
	all = all[fl.dirPos:]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	fl.dirPos += len(all)
	return all, nil
}

// Readdirnames reads the names.
func (fl *File) Readdirnames(n int) ([]string, error) {
	fi, err := fl.Readdir(n)
	var out []string
	for _, v := range fi {
		out = append(out, v.Name())
	}
	return out, err
}

type finfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	dir   bool
	id    int
}

func (i *finfo) Name() string { return i.name }
func (i *finfo) Size() int64  { return i.size }
func (i *finfo) Mode() fs.FileMode {
	if i.dir {
		return i.mode | fs.ModeDir
	}
	return i.mode
}
func (i *finfo) ModTime() time.Time { return time.Unix(0, i.mtime) }
func (i *finfo) IsDir() bool        { return i.dir }
func (i *finfo) Sys() interface{}   { return nil }

func info(name string, n *inode) fs.FileInfo {
	return &finfo{name: name, size: int64(len(n.data)), mode: n.mode, mtime: n.mtime, dir: n.dir, id: n.id}
}

// SameFile compares.
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.id == y.id
}

// Stat stats.
func Stat(name string) (fs.FileInfo, error) {
	f := Cur
	p := clean(name)
	if err := f.point("stat", p, false, acc(p, false, false)); err != nil {
		return nil, perr("stat", name, err)
	}
	n, err := f.walk(p)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return info(path.Base(p), n), nil
}

func readDir(p string) ([]fs.FileInfo, error) {
	f := Cur
	a := append(acc(p, false, false), mc.Access{Obj: mc.HashString("l:" + p)})
	if err := f.point("readdir", p, false, a); err != nil {
		return nil, err
	}
	n, err := f.walk(p)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, syscall.ENOTDIR
	}
	var names []string
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	var out []fs.FileInfo
	for _, k := range names {
		out = append(out, info(k, n.kids[k]))
	}
	return out, nil
}

// ReadDirInfo is ioutil.ReadDir.
func ReadDirInfo(name string) ([]fs.FileInfo, error) {
	fi, err := readDir(clean(name))
	return fi, perr("open", name, err)
}

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]fs.DirEntry, error) {
	fi, err := readDir(clean(name))
	var out []fs.DirEntry
	for _, v := range fi {
		out = append(out, fs.FileInfoToDirEntry(v))
	}
	return out, perr("open", name, err)
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	b := make([]byte, len(f.n.data)+1)
	n, err := f.Read(b)
	if err == io.EOF {
		err = nil
	}
	return b[:n], err
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, mode fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Mkdir makes a directory.
func Mkdir(name string, mode fs.FileMode) error {
	f := Cur
	p := clean(name)
	if err := f.point("mkdir", p, true, acc(p, true, true)); err != nil {
		return perr("mkdir", name, err)
	}
	return perr("mkdir", name, f.mkdir(p, mode))
}

func (f *FS) mkdir(p string, mode fs.FileMode) error {
	if p == "/" {
		return syscall.EEXIST
	}
	d, b, err := f.parent(p)
	if err != nil {
		return err
	}
	if d.kids[b] != nil {
		return syscall.EEXIST
	}
	d.kids[b] = f.mk(true, mode&0777)
	d.kids[b].mtime = now()
	f.log(Rec{Op: "mkdir", Path: p, mode: mode & 0777, ino: d.kids[b].id})
	return nil
}

// MkdirAll makes all directories.
func MkdirAll(name string, mode fs.FileMode) error {
	f := Cur
	p := clean(name)
	if p == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	cur := ""
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		cur += "/" + s
		n, err := f.walk(cur)
		if err == nil {
			if !n.dir {
				return perr("mkdir", name, syscall.ENOTDIR)
			}
			continue
		}
		if err := f.point("mkdir", cur, true, acc(cur, true, true)); err != nil {
			return perr("mkdir", name, err)
		}
		if err := f.mkdir(cur, mode); err != nil && err != syscall.EEXIST {
			return perr("mkdir", name, err)
		}
	}
	return nil
}

// Remove removes a file or an empty directory.
func Remove(name string) error {
	f := Cur
	p := clean(name)
	if err := f.point("remove", p, true, acc(p, true, true)); err != nil {
		return perr("remove", name, err)
	}
	d, b, err := f.parent(p)
	if err != nil {
		return perr("remove", name, err)
	}
	n := d.kids[b]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.kids, b)
	f.log(Rec{Op: "remove", Path: p})
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	f := Cur
	p := clean(name)
	n, err := f.walk(p)
	if err != nil {
		return nil
	}
	if n.dir {
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if err := RemoveAll(p + "/" + k); err != nil {
				return err
			}
		}
	}
	return Remove(p)
}

func lerr(op, a, b string, err error) error {
	if err == nil {
		return nil
	}
	return &os.LinkError{Op: op, Old: a, New: b, Err: err}
}

// Rename renames.
func Rename(from, to string) error {
	f := Cur
	a, b := clean(from), clean(to)
	if err := f.point("rename", a+" -> "+b, true, append(acc(a, true, true), acc(b, true, true)...)); err != nil {
		return lerr("rename", from, to, err)
	}
	return lerr("rename", from, to, f.rename(a, b))
}

func (f *FS) rename(a, b string) error {
	d1, b1, err := f.parent(a)
	if err != nil {
		return err
	}
	n := d1.kids[b1]
	if n == nil {
		return syscall.ENOENT
	}
	d2, b2, err := f.parent(b)
	if err != nil {
		return err
	}
	if o := d2.kids[b2]; o != nil && o != n {
		if o.dir && !n.dir {
			return syscall.EISDIR
		}
		if !o.dir && n.dir {
			return syscall.ENOTDIR
		}
		if o.dir && len(o.kids) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	if a == b {
		return nil
	}
	if strings.HasPrefix(b, a+"/") {
		return syscall.EINVAL
	}
	delete(d1.kids, b1)
	d2.kids[b2] = n
	f.log(Rec{Op: "rename", Path: a, To: b})
	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	f := Cur
	a, b := clean(from), clean(to)
	if err := f.point("link", a+" -> "+b, true, append(acc(a, false, false), acc(b, true, true)...)); err != nil {
		return lerr("link", from, to, err)
	}
	n, err := f.walk(a)
	if err != nil {
		return lerr("link", from, to, err)
	}
	if n.dir {
		return lerr("link", from, to, syscall.EPERM)
	}
	d, bb, err := f.parent(b)
	if err != nil {
		return lerr("link", from, to, err)
	}
	if d.kids[bb] != nil {
		return lerr("link", from, to, syscall.EEXIST)
	}
	d.kids[bb] = n
	f.log(Rec{Op: "link", Path: a, To: b})
	return nil
}

// Chmod changes the mode.
func Chmod(name string, m fs.FileMode) error {
	n, err := Cur.walk(clean(name))
	if err != nil {
		return perr("chmod", name, err)
	}
	n.mode = m
	return nil
}

// TruncateName truncates by name.
func TruncateName(name string, sz int64) error {
	fl, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer fl.Close()
	return fl.Truncate(sz)
}

// Temp creates a temporary file.
func Temp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		Cur.tmp++
		p := path.Join(dir, fmt.Sprintf("%s%09d%s", pre, 100000000+Cur.tmp*7919, suf))
		f, err := OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

// TempDir creates a temporary directory.
func TempDir(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pattern = strings.Replace(pattern, "*", "", 1)
	for {
		Cur.tmp++
		p := path.Join(dir, fmt.Sprintf("%s%09d", pattern, 100000000+Cur.tmp*7919))
		err := Mkdir(p, 0700)
		if os.IsExist(err) {
			continue
		}
		return p, err
	}
}

// ---- harness access: no scheduling points, no log ----

// Read returns a file's content.
func (f *FS) Read(p string) ([]byte, bool) {
	n, err := f.walk(clean(p))
	if err != nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Exists tells whether p exists.
func (f *FS) Exists(p string) bool {
	_, err := f.walk(clean(p))
	return err == nil
}

// Put writes a file creating directories.
func (f *FS) Put(p string, data []byte) {
	p = clean(p)
	f.PutDir(path.Dir(p))
	d, b, err := f.parent(p)
	if err != nil {
		panic(err)
	}
	n := f.mk(false, 0600)
	n.data = append([]byte(nil), data...)
	n.synced = append([]byte(nil), data...)
	n.mtime = now()
	d.kids[b] = n
}

// PutDir makes directories.
func (f *FS) PutDir(p string) {
	p = clean(p)
	n := f.root
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		k := n.kids[s]
		if k == nil {
			k = f.mk(true, 0700)
			n.kids[s] = k
		}
		n = k
	}
}

// Del removes quietly.
func (f *FS) Del(p string) {
	d, b, err := f.parent(clean(p))
	if err == nil {
		delete(d.kids, b)
	}
}

// List lists names in a directory.
func (f *FS) List(p string) []string {
	n, err := f.walk(clean(p))
	if err != nil || !n.dir {
		return nil
	}
	var out []string
	for k := range n.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Dump renders the tree below p.
func (f *FS) Dump(p string) string {
	n, err := f.walk(clean(p))
	if err != nil {
		return "<none>"
	}
	var sb strings.Builder
	dump(&sb, clean(p), n)
	return sb.String()
}

func dump(sb *strings.Builder, p string, n *inode) {
	if n.dir {
		fmt.Fprintf(sb, "%s/\n", p)
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			dump(sb, p+"/"+k, n.kids[k])
		}
		return
	}
	fmt.Fprintf(sb, "%s %x\n", p, mc.HashString(string(n.data)))
}

// Files lists all files below p.
func (f *FS) Files(p string) []string {
	n, err := f.walk(clean(p))
	if err != nil {
		return nil
	}
	var out []string
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if !n.dir {
			out = append(out, p)
			return
		}
		for k, v := range n.kids {
			rec(path.Join(p, k), v)
		}
	}
	rec(clean(p), n)
	sort.Strings(out)
	return out
}

// ---- crash states ----

// Crash describes one crash state of a logged history.
type Crash struct {
	After int    // records applied completely
	Torn  int    // bytes of the next write applied, -1 none
	Lost  string // description of unsynced data dropped
	FS    *FS
}

func (c Crash) String() string {
	s := fmt.Sprintf("crash after op %d", c.After)
	if c.Torn >= 0 {
		s += fmt.Sprintf(" with %d bytes of the next write", c.Torn)
	}
	if c.Lost != "" {
		s += ", unsynced data of " + c.Lost
	}
	return s
}

func byID(n *inode, m map[int]*inode) {
	m[n.id] = n
	for _, k := range n.kids {
		byID(k, m)
	}
}

// apply replays a record on a clone.
func (f *FS) apply(r Rec, ids map[int]*inode, torn int) {
	switch r.Op {
	case "create":
		d, b, err := f.parent(r.Path)
		if err == nil {
			n := &inode{mode: r.mode, id: r.ino}
			d.kids[b] = n
			ids[r.ino] = n
		}
	case "mkdir":
		d, b, err := f.parent(r.Path)
		if err == nil {
			n := &inode{mode: r.mode, id: r.ino, dir: true, kids: map[string]*inode{}}
			d.kids[b] = n
			ids[r.ino] = n
		}
	case "trunc":
		if n := ids[r.ino]; n != nil {
			n.data, n.dirty = nil, true
		}
	case "truncto":
		if n := ids[r.ino]; n != nil {
			for len(n.data) < r.N {
				n.data = append(n.data, 0)
			}
			n.data, n.dirty = n.data[:r.N], true
		}
	case "write":
		if n := ids[r.ino]; n != nil {
			w := r.data
			if torn >= 0 {
				w = w[:torn]
			}
			n.put(r.off, w)
		}
	case "sync":
		if n := ids[r.ino]; n != nil {
			n.synced = append([]byte(nil), n.data...)
			n.dirty = false
		}
	case "remove":
		d, b, err := f.parent(r.Path)
		if err == nil {
			delete(d.kids, b)
		}
	case "rename":
		f.rename(r.Path, r.To)
	case "link":
		if n, err := f.walk(r.Path); err == nil {
			if d, b, err := f.parent(r.To); err == nil {
				d.kids[b] = n
			}
		}
	}
}

// Crashes enumerates every crash state of the log starting from base: each
// prefix, each prefix with a torn next write (tear points given by tears) and,
// when power is set, each choice of {kept, empty, half} for the content of
// files whose data was not synced.
func Crashes(base *FS, log []Rec, tears int, power bool, f func(Crash) bool) int {
	count := 0
	for i := 0; i <= len(log); i++ {
		ts := []int{-1}
		if i < len(log) && log[i].Op == "write" {
			n := log[i].N
			if tears <= 0 || n <= tears {
				for k := 1; k < n; k++ {
					ts = append(ts, k)
				}
			} else {
				for k := 1; k <= tears; k++ {
					if v := k * n / (tears + 1); v > 0 && v < n {
						ts = append(ts, v)
					}
				}
				ts = append(ts, 1, n-1)
			}
		}
		for _, tr := range ts {
			g := base.Clone()
			ids := map[int]*inode{}
			byID(g.root, ids)
			for k := 0; k < i; k++ {
				g.apply(log[k], ids, -1)
			}
			if tr >= 0 {
				g.apply(log[i], ids, tr)
			}
			g.Log = nil
			count++
			if !f(Crash{After: i, Torn: tr, FS: g.Clone()}) {
				return count
			}
			if !power || tr >= 0 {
				continue
			}
			// unsynced files reachable in the tree
			reach := map[int]*inode{}
			byID(g.root, reach)
			var dirty []*inode
			var idl []int
			for id, n := range reach {
				if !n.dir && n.dirty {
					idl = append(idl, id)
				}
			}
			sort.Ints(idl)
			for _, id := range idl {
				dirty = append(dirty, reach[id])
			}
			if len(dirty) == 0 {
				continue
			}
			if len(dirty) > 3 {
				dirty = dirty[len(dirty)-3:]
			}
			total := 1
			for range dirty {
				total *= 3
			}
			full := make([][]byte, len(dirty))
			for k, n := range dirty {
				full[k] = n.data
			}
			for v := 1; v < total; v++ {
				x := v
				lost := ""
				for k, n := range dirty {
					switch x % 3 {
					case 0:
						n.data = full[k]
					case 1:
						n.data = append([]byte(nil), n.synced...)
						lost += fmt.Sprintf("inode %d dropped ", n.id)
					case 2:
						h := len(full[k]) / 2
						n.data = append([]byte(nil), full[k][:h]...)
						lost += fmt.Sprintf("inode %d halved ", n.id)
					}
					x /= 3
				}
				h := g.Clone()
				count++
				if !f(Crash{After: i, Torn: -1, Lost: lost, FS: h}) {
					return count
				}
			}
		}
	}
	return count
}

// Losses lists what a power loss can leave of the files below a directory: for
// each file with unsynced data its content is kept, halved or what was synced.
// The first state has lost nothing.
func (f *FS) Losses(dir string) (out []Crash) {
	for v, total := 0, 1; v < total; v++ {
		g := f.Clone()
		n, err := g.walk(dir)
		if err != nil {
			return []Crash{{Torn: -1, FS: g}}
		}
		reach := map[int]*inode{}
		byID(n, reach)
		var idl []int
		for id, n := range reach {
			if !n.dir && n.dirty {
				idl = append(idl, id)
			}
		}
		sort.Ints(idl)
		if len(idl) > 4 {
			idl = idl[len(idl)-4:]
		}
		total = 1
		lost := ""
		x := v
		for _, id := range idl {
			n := reach[id]
			switch x % 3 {
			case 1:
				n.data = append([]byte(nil), n.synced...)
				lost += fmt.Sprintf("inode %d dropped ", n.id)
			case 2:
				n.data = append([]byte(nil), n.data[:len(n.data)/2]...)
				lost += fmt.Sprintf("inode %d halved ", n.id)
			}
			x /= 3
			total *= 3
		}
		out = append(out, Crash{Torn: -1, Lost: lost, FS: g})
	}
	return
}

// Mode returns the permissions of p.
func (f *FS) Mode(p string) fs.FileMode {
	n, err := f.walk(clean(p))
	if err != nil {
		return 0
	}
	return n.mode & 0777
}

// RemoveQuiet removes a tree without a trace.
func (f *FS) RemoveQuiet(p string) { f.Del(p) }
