package h

import (
	"archive/zip"
	"bytes"
	"io"
)

func mkZip(parts ...part) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, p := range parts {
		// stored, which keeps the packages small and readable
		f, err := w.CreateHeader(&zip.FileHeader{Name: p.name, Method: zip.Store})
		if err == nil {
			_, err = io.WriteString(f, p.data)
		}
		if err != nil {
			panic(err)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// unzip lists the parts of a package in order.
func unzip(b []byte) (ps []part) {
	r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic("zip: " + err.Error())
	}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			panic("zip: " + err.Error())
		}
		data, err := io.ReadAll(rc)
		if err != nil {
			panic("zip: " + err.Error())
		}
		rc.Close()
		ps = append(ps, part{f.Name, string(data)})
	}
	return
}

// samePackage: the same parts with the same contents, in any order.
func samePackage(a, b []byte) bool {
	x, y := unzip(a), unzip(b)
	if len(x) != len(y) {
		return false
	}
	for _, p := range x {
		n := 0
		for _, q := range y {
			if p.name == q.name {
				n++
				if p.data != q.data {
					return false
				}
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}
