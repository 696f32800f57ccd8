// Package ioutil is the simulated file system.
package ioutil

import (
	"io/fs"
	"simmod/shim/os"
)

func ReadFile(p string) ([]byte, error)                 { return os.ReadFile(p) }
func WriteFile(p string, b []byte, m fs.FileMode) error { return os.WriteFile(p, b, m) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func ReadDir(p string) ([]fs.FileInfo, error) {
	d, err := os.ReadDir(p)
	var o []fs.FileInfo
	for _, e := range d {
		if i, err := e.Info(); err == nil {
			o = append(o, i)
		}
	}
	return o, err
}
