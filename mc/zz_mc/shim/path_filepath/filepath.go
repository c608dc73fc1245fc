package filepath

import (
	"io/fs"
	"path"
	rf "path/filepath"

	"github.com/levilutz/basiccoin/zz_mc/shim/os"
)

var SkipDir = fs.SkipDir
var SkipAll = fs.SkipAll

const (
	Separator     = rf.Separator
	ListSeparator = rf.ListSeparator
)

type WalkFunc = rf.WalkFunc

func Join(e ...string) string         { return path.Join(e...) }
func Base(p string) string            { return path.Base(p) }
func Dir(p string) string             { return path.Dir(p) }
func Ext(p string) string             { return path.Ext(p) }
func Clean(p string) string           { return path.Clean(p) }
func IsAbs(p string) bool             { return path.IsAbs(p) }
func Split(p string) (string, string) { return path.Split(p) }
func Match(p, n string) (bool, error) { return path.Match(p, n) }
func Rel(a, b string) (string, error) { return rf.Rel(a, b) }
func ToSlash(p string) string         { return p }
func FromSlash(p string) string       { return p }
func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/home/u", p), nil
}
func EvalSymlinks(p string) (string, error) { return p, nil }
func Glob(pat string) (out []string, err error) {
	d, f := path.Split(pat)
	l, err := os.ReadDir(path.Clean(d))
	if err != nil {
		return nil, nil
	}
	for _, e := range l {
		if ok, err := path.Match(f, e.Name()); err != nil {
			return nil, err
		} else if ok {
			out = append(out, path.Join(d, e.Name()))
		}
	}
	return out, nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}
