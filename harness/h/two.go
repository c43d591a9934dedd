package h

import (
	"bytes"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C06_two"] = C06_two
	All["C07_two"] = C07_two
	All["C10_two"] = C10_two
	All["C17_two"] = C17_two
	All["C19_two"] = C19_two
}

// twoDocs adds links, pictures and items to two documents in any order: each
// has what was added to it and what it had, and nothing of the other.
func twoDocs(a, b *docx.Docx) {
	docs := [2]*docx.Docx{a, b}
	var refs [2][]ref
	var rels [2][]docx.Relationship
	var items [2]int
	var media [2]int
	for i, d := range docs {
		rels[i] = relsOf(d)
		items[i] = len(d.Document.Body.Items)
		media[i] = len(mediaParts(Save(d)))
	}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for k := 0; k < n; k++ {
		w := pickN("doc", 2)
		p := docs[w].AddParagraph()
		items[w]++
		var r ref
		if sym.Bool("picture") {
			r.data = png(2, 3, byte(k))
			run, err := p.AddInlineDrawing(r.data)
			sym.Assert(err == nil, "a picture cannot be added")
			r.run = run
			media[w]++
		} else {
			r.target = sym.Choice("target", "u:0", "u:1", "styles.xml")
			r.link = p.AddLink("text", r.target)
		}
		refs[w] = append(refs[w], r)
	}
	for i, d := range docs {
		check := func(d *docx.Docx) {
			sym.Assert(len(d.Document.Body.Items) == items[i], "number of body items")
			rs := relsOf(d)
			sym.Assert(len(rs) == len(rels[i])+len(refs[i]), "number of relationships")
			for k, r := range rels[i] {
				sym.Assert(rs[k].ID == r.ID && rs[k].Type == r.Type && rs[k].Target == r.Target && rs[k].TargetMode == r.TargetMode, "a relationship changed")
			}
			uniqueIDs(d)
			for _, r := range refs[i] {
				if r.run != nil {
					sym.Assert(bytes.Equal(mediaOf(d, embedOf(r.run)), r.data), "a picture does not refer to its bytes")
					continue
				}
				t, err := d.ReferTarget(r.link.ID)
				sym.Assert(err == nil && t == r.target, "a link does not refer to its target")
			}
		}
		check(d)
		ids := drawingIDs(d)
		for x := range ids {
			for y := 0; y < x; y++ {
				sym.Assert(ids[x] != ids[y], "two drawings have the same id")
			}
		}
		s := Save(d)
		sym.Assert(len(mediaParts(s)) == media[i], "number of media files in the package")
		check(Open(s))
	}
	sym.Reach("two")
}

// pair gives two documents made in the same way.
func pair(mk func() *docx.Docx) (a, b *docx.Docx) {
	a = mk()
	return a, mk()
}

// C06_two: two new or opened documents.
func C06_two() {
	if sym.Bool("opened") {
		s := Save(docx.New())
		twoDocs(pair(func() *docx.Docx { return Open(s) }))
		return
	}
	twoDocs(pair(docx.New))
}

// C07_two: a document and the one it was saved to.
func C07_two() {
	d := docx.New()
	if _, err := d.AddParagraph().AddInlineDrawing(png(9, 9, 9)); err != nil {
		panic(err)
	}
	twoDocs(d, Reopen(d))
}

// C10_two: two parts of a document, or a part and the document.
func C10_two() {
	d := docx.New()
	d.AddParagraph().AddLink("l", "u:l")
	if _, err := d.AddParagraph().AddInlineDrawing(png(9, 9, 9)); err != nil {
		panic(err)
	}
	ds := d.SplitByParagraph(func(*docx.Paragraph) bool { return true })
	sym.Assert(len(ds) == 2, "number of parts")
	if sym.Bool("parts") {
		twoDocs(ds[0], ds[1])
		return
	}
	twoDocs(d, ds[pickN("part", 2)])
}

// C17_two: a document and one it was appended to.
func C17_two() {
	d, e := docx.New(), docx.New()
	if _, err := d.AddParagraph().AddAnchorDrawing(png(9, 9, 9)); err != nil {
		panic(err)
	}
	e.AddParagraph().AddLink("l", "u:l")
	e.AppendFile(d)
	twoDocs(d, e)
}

// C19_two: two assembled documents, of the same media or of none.
func C19_two() {
	if sym.Bool("media") {
		m := []docx.Media{{Name: "image1.png", Data: []byte("1")}}
		twoDocs(docx.LoadBodyItems(nil, m), docx.LoadBodyItems(nil, m))
		return
	}
	twoDocs(pair(func() *docx.Docx { return docx.LoadBodyItems(nil, nil) }))
}
