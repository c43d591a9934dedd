package h

import (
	"errors"
	"io"
	"io/fs"
	"time"
)

// memFS is a file system of plain files.
type memFS map[string]string

func (m memFS) Open(name string) (fs.File, error) {
	s, ok := m[name]
	if !ok {
		return nil, fs.ErrNotExist
	}
	return &memFile{name: name, data: s, fail: -1}, nil
}

// memFile fails after fail bytes, unless that is negative.
type memFile struct {
	name, data string
	off, fail  int
	err        error
}

var errFault = errors.New("fault")

func (f *memFile) Stat() (fs.FileInfo, error) { return f, nil }
func (f *memFile) Close() error               { return nil }
func (f *memFile) Read(p []byte) (int, error) {
	if f.fail >= 0 && f.off >= f.fail {
		if f.err == nil {
			return 0, errFault
		}
		return 0, f.err
	}
	if f.off >= len(f.data) {
		return 0, io.EOF
	}
	end := len(f.data)
	if f.fail >= 0 && end > f.fail {
		end = f.fail
	}
	n := copy(p, f.data[f.off:end])
	f.off += n
	return n, nil
}
func (f *memFile) Name() string       { return f.name }
func (f *memFile) Size() int64        { return int64(len(f.data)) }
func (f *memFile) Mode() fs.FileMode  { return 0o444 }
func (f *memFile) ModTime() time.Time { return time.Time{} }
func (f *memFile) IsDir() bool        { return false }
func (f *memFile) Sys() any           { return nil }
