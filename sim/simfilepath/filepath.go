// Package simfilepath stands in for path/filepath: its lexical functions are
// the real ones, those that look at the disk look at the simulated disk.
package simfilepath

import (
	"io/fs"
	"path"
	"path/filepath"

	"simv/simos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

type WalkFunc = filepath.WalkFunc

var (
	Base       = filepath.Base
	Clean      = filepath.Clean
	Dir        = filepath.Dir
	Ext        = filepath.Ext
	FromSlash  = filepath.FromSlash
	ToSlash    = filepath.ToSlash
	IsAbs      = filepath.IsAbs
	IsLocal    = filepath.IsLocal
	Join       = filepath.Join
	Localize   = filepath.Localize
	Match      = filepath.Match
	Rel        = filepath.Rel
	Split      = filepath.Split
	SplitList  = filepath.SplitList
	VolumeName = filepath.VolumeName
)

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := simos.Getwd()
	return Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Stat(p); err != nil {
		return "", err
	}
	if real := simos.Real(p); real != simos.Lexical(p) {
		return real, nil
	}
	return Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	ms, err := fs.Glob(simos.DirFS("/"), path.Clean(pattern))
	return ms, err
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return fs.WalkDir(simos.DirFS(root), ".", func(p string, d fs.DirEntry, err error) error {
		return fn(Join(root, p), d, err)
	})
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}
