// Package simfilepath replaces the path/filepath functions that depend on the
// process' working directory or access the file system.
package simfilepath

import (
	"io/fs"
	"path/filepath"

	"github.com/DataDog/orchestrion/internal/verifsim/sim"
	"github.com/DataDog/orchestrion/internal/verifsim/simos"
)

func Abs(path string) (string, error) {
	if filepath.IsAbs(path) {
		return filepath.Clean(path), nil
	}
	if sim.CurProc() == nil {
		return filepath.Abs(path)
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, path), nil
}

func EvalSymlinks(path string) (string, error) {
	if p := sim.CurProc(); p != nil {
		path = p.Abs(path)
	}
	return filepath.EvalSymlinks(path)
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	if p := sim.CurProc(); p != nil && !filepath.IsAbs(root) {
		abs := p.Abs(root)
		return filepath.WalkDir(abs, func(path string, d fs.DirEntry, err error) error {
			if rel, rerr := filepath.Rel(abs, path); rerr == nil {
				path = filepath.Join(root, rel)
			}
			return fn(path, d, err)
		})
	}
	return filepath.WalkDir(root, fn)
}
