// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"simv/simos"
)

var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
	ReadAll   = io.ReadAll
	ReadFile  = simos.ReadFile
	WriteFile = simos.WriteFile
	TempFile  = simos.CreateTemp
	TempDir   = simos.MkdirTemp
)

func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := simos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
