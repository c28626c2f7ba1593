// Package sfilepath stands in for the parts of path/filepath that look at the disk.
package sfilepath

import (
	"io/fs"
	"path/filepath"

	"ecksbee.com/telefacts/vsim"
	"ecksbee.com/telefacts/vsim/sos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(vsim.FSGetwd(), p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := sos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := sos.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := sos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == filepath.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	l, err := sos.ReadDir(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range l {
		if ok, _ := filepath.Match(file, e.Name()); ok {
			out = append(out, filepath.Join(dir, e.Name()))
		}
	}
	return out, nil
}
