// Package filepath works on the node's file system.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"

	"simmod/simrt"
)

// Abs is an absolute path.
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := simrt.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

// EvalSymlinks resolves links.
func EvalSymlinks(p string) (string, error) {
	c, err := simrt.Canon(p)
	if err != nil {
		return "", err
	}
	if !real.IsAbs(p) {
		if wd, e := simrt.Getwd(); e == nil {
			if r, e := real.Rel(wd, c); e == nil {
				return r, nil
			}
		}
	}
	return c, nil
}

// Walk walks a tree.
func Walk(root string, fn real.WalkFunc) error {
	fi, err := simrt.Stat(root, false)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(p string, fi fs.FileInfo, fn real.WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	names, err := simrt.ReadNames(p)
	if e := fn(p, fi, err); err != nil || e != nil {
		return e
	}
	sort.Strings(names)
	for _, n := range names {
		q := real.Join(p, n)
		i, err := simrt.Stat(q, false)
		if err != nil {
			if e := fn(q, i, err); e != nil && e != real.SkipDir {
				return e
			}
			continue
		}
		if err := walk(q, i, fn); err != nil {
			if !i.IsDir() || err != real.SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir walks a tree.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}
