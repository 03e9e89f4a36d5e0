//go:build go1.21

// Package vfilepath stands in for path/filepath.
package vfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"strings"

	"github.com/companyzero/zkc/zz/vfs"
)

func Walk(root string, fn filepath.WalkFunc) error {
	fi, err := vfs.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, fi fs.FileInfo, fn filepath.WalkFunc) error {
	err := fn(p, fi, nil)
	if err != nil || !fi.IsDir() {
		if err == filepath.SkipDir && fi.IsDir() {
			return nil
		}
		return err
	}
	l, err := vfs.ReadDirInfo(p)
	if err != nil {
		return fn(p, fi, err)
	}
	for _, v := range l {
		if err := walk(path.Join(p, v.Name()), v, fn); err != nil {
			if err == filepath.SkipDir {
				return nil
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}

func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	d, b := path.Split(pattern)
	if strings.ContainsAny(d, "*?[") {
		return nil, filepath.ErrBadPattern
	}
	l, err := vfs.ReadDirInfo(path.Clean(d))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, v := range l {
		if ok, _ := path.Match(b, v.Name()); ok {
			out = append(out, path.Join(d, v.Name()))
		}
	}
	return out, nil
}

func EvalSymlinks(p string) (string, error) {
	_, err := vfs.Stat(p)
	return path.Clean(p), err
}

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/cwd", p), nil
}
