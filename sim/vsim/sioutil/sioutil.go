// Package sioutil stands in for io/ioutil.
package sioutil

import (
	"io/fs"

	"ecksbee.com/telefacts/vsim/sos"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)     { return sos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := sos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
