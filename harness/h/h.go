// Package h holds the harnesses, one function per part of a property.
package h

import (
	"bytes"

	docx "github.com/fumiama/go-docx"
)

// All lists the harnesses for the native runner.
var All = map[string]func(){}

// Save writes a document and returns the package bytes.
func Save(d *docx.Docx) []byte {
	var b bytes.Buffer
	n, err := d.WriteTo(&b)
	_ = n
	if err != nil {
		panic("save: " + err.Error())
	}
	return b.Bytes()
}

// Open parses package bytes.
func Open(b []byte) *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic("open: " + err.Error())
	}
	return d
}

// Reopen is Save followed by Open.
func Reopen(d *docx.Docx) *docx.Docx { return Open(Save(d)) }
func paras(d *docx.Docx) (ps []*docx.Paragraph) {
	for _, it := range d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok {
			ps = append(ps, p)
		}
	}
	return
}

// Warm runs once per machine before any path, to fill the caches of
// encoding/xml; it has no symbolic input.
func Warm() {
	d := docx.New()
	d.AddParagraph().AddText("x").Color("1").Size("2").Bold()
	Reopen(d)
	for _, k := range goldenKinds {
		d := docx.New()
		d.Document.Body.Items = append(d.Document.Body.Items, goldenItem(k, newGen()))
		Reopen(d)
	}
}
