package h

import (
	"bytes"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C19_names"] = C19_names
	All["C19_load"] = C19_load
	All["C19_added"] = C19_added
	All["C19_kinds"] = C19_kinds
}

// spare copies the items and media into slices with room behind them, that
// must stay as it is.
func spare(items []interface{}, media []docx.Media) ([]interface{}, []docx.Media, func()) {
	bi := append(append(make([]interface{}, 0, len(items)+4), items...), "sentinel", "sentinel")
	bm := append(append(make([]docx.Media, 0, len(media)+4), media...), docx.Media{Name: "sentinel"}, docx.Media{Name: "sentinel"})
	n, k := len(items), len(media)
	return bi[:n], bm[:k], func() {
		for i := range items {
			sym.Assert(bi[i] == items[i], "the list of items changed")
		}
		for i := range media {
			sym.Assert(bm[i].Name == media[i].Name && string(bm[i].Data) == string(media[i].Data), "the list of media changed")
		}
		sym.Assert(bi[n] == interface{}("sentinel") && bi[n+1] == interface{}("sentinel"), "the items behind the list changed")
		sym.Assert(bm[k].Name == "sentinel" && bm[k+1].Name == "sentinel", "the media behind the list changed")
	}
}

// hasMedia: the document has the media, and n of them.
func hasMedia(d *docx.Docx, media []docx.Media, n int) {
	for _, m := range media {
		x := d.Media(m.Name)
		sym.Assert(x != nil && x.Name == m.Name && string(x.Data) == string(m.Data), "a media file is not as given")
	}
	if n < 0 {
		return
	}
	b := Save(d)
	ps := mediaParts(b)
	sym.Assert(len(ps) == n, "number of media files in the package")
	for _, m := range media {
		k := 0
		for _, p := range ps {
			if p.name == m.Name {
				k++
				sym.Assert(p.data == string(m.Data), "a media file in the package is not as given")
			}
		}
		sym.Assert(k == 1, "a media file is not in the package")
	}
}

// loadItem is a body item of one of several kinds.
func loadItem(k int) interface{} {
	switch pickN("kind", 4) {
	case 0:
		return para(&docx.Run{RunProperties: &docx.RunProperties{}, Children: []interface{}{&docx.Text{Text: "t" + string(rune('0'+k))}}})
	case 1:
		t := docx.New().AddTable(1, 2, 0, nil)
		t.TableRows[0].TableCells[1].AddParagraph().AddText("cell")
		return t
	case 2:
		return &docx.SectPr{PgSz: &docx.PgSz{W: 7 + k, H: 8}}
	}
	return docx.New().AddParagraph()
}

// addTo adds content to the document and returns how many items and media.
func addTo(d *docx.Docx, k int) (items, media int, r ref) {
	switch pickN("add", 4) {
	case 0:
		d.AddParagraph().AddText("added")
		return 1, 0, r
	case 1:
		data := png(2, 3, byte(k))
		run, err := d.AddParagraph().AddInlineDrawing(data)
		sym.Assert(err == nil, "a picture cannot be added")
		return 1, 1, ref{run: run, data: data}
	case 2:
		return 1, 0, ref{link: d.AddParagraph().AddLink("text", "target"), target: "target"}
	}
	d.AddTable(1, 1, 0, nil)
	return 1, 0, r
}

// C19_load: any list of items and media.
func C19_load() {
	var orig []interface{}
	max := 2
	if sym.Thorough() {
		max = 3
	}
	n := pickN("items", max+1)
	for i := 0; i < n; i++ {
		orig = append(orig, loadItem(i))
	}
	var med []docx.Media
	k := 0
	if n < 2 {
		k = pickN("media", 3)
	}
	for i := 0; i < k; i++ {
		name := sym.Choice("name", "image1.png", "image2.png", "image3.png", "x.bin", "图片 2.png")
		for _, m := range med {
			sym.Assume(m.Name != name)
		}
		med = append(med, docx.Media{Name: name, Data: []byte{byte(i), sym.Byte("data")}})
	}
	items, media, unchanged := spare(orig, med)
	d := docx.LoadBodyItems(items, media)
	other := docx.LoadBodyItems(items, media)
	if sym.Bool("template") {
		d.UseTemplate("", []string{"a.txt"}, memFS{"a.txt": "A"})
	}
	same := func(d *docx.Docx, n int) {
		it := d.Document.Body.Items
		sym.Assert(len(it) == n, "number of body items")
		for i := range orig {
			sym.Assert(it[i] == orig[i], "a body item is not the given one")
		}
	}
	same(d, n)
	hasMedia(d, med, k)
	ni, nm := n, k
	for i := 0; i < max-n%2; i++ {
		a, b, r := addTo(d, i)
		ni, nm = ni+a, nm+b
		if r.run != nil {
			sym.Assert(bytes.Equal(mediaOf(d, embedOf(r.run)), r.data), "an added picture does not refer to its bytes")
		}
		if r.link != nil {
			t, err := d.ReferTarget(r.link.ID)
			sym.Assert(err == nil && t == r.target, "an added link does not refer to its target")
		}
	}
	other.AddParagraph().AddText("other")
	if _, err := other.AddParagraph().AddInlineDrawing(png(4, 4, 4)); err != nil {
		panic(err)
	}
	same(d, ni)
	same(other, n+2)
	unchanged()
	hasMedia(d, med, nm)
	hasMedia(other, med, k+1)
	uniqueIDs(d)
	got := Reopen(d)
	sym.Assert(len(got.Document.Body.Items) == ni, "number of body items after save and open")
	for i := range orig {
		sameBut(got.Document.Body.Items[i], orig[i])
	}
	hasMedia(got, med, nm)
	sym.Reach("load")
}

// C19_added: items with links and pictures of their own.
func C19_added() {
	link := sym.Choice("link", "rId4", "rId1", "rId5", "link9")
	embed := sym.Choice("embed", "rId6", "rId7", "pic")
	sym.Assume(link != embed)
	i, j := pickN("item", len(mediaItems)), len(mediaItems)-1
	if sym.Bool("two") {
		j = pickN("item", len(mediaItems))
	}
	b := mediaDoc(link, "http://t", embed, "image1.png", "own", i, j)
	src := Open(b)
	src2 := Open(b)
	med := []docx.Media{{Name: "image1.png", Data: []byte("own")}, {Name: "image100001.png", Data: []byte("own2")}}
	items, media, unchanged := spare(src.Document.Body.Items, med)
	d := docx.LoadBodyItems(items, media)
	before := drawingIDs(d)
	x := d.AddParagraph()
	pic := gif(3, 2, 1)
	r, err := x.AddInlineDrawing(pic)
	sym.Assert(err == nil, "a picture cannot be added")
	l := x.AddLink("text", "http://new")
	if sym.Bool("anchor") {
		if r, err = x.AddAnchorDrawing(pic); err != nil {
			sym.Fail("a picture cannot be added")
		}
	}
	unchanged()
	for _, id := range []string{embedOf(r), l.ID} {
		xml := mediaItems[i] + mediaItems[j]
		sym.Assert(id != link || !strings.Contains(xml, "%L"), "an added id is one of the items")
		sym.Assert(id != embed || !strings.Contains(xml, "%E"), "an added id is one of the items")
	}
	uniqueIDs(d)
	after := drawingIDs(d)
	for k, id := range after[len(before):] {
		for _, o := range after[:len(before)+k] {
			sym.Assert(o != id, "the id of an added drawing is not fresh")
		}
	}
	for k := 0; k < 2; k++ {
		sym.Assert(len(d.Document.Body.Items) == 3, "number of body items")
		sameBut(d.Document.Body.Items[0], src2.Document.Body.Items[0])
		sameBut(d.Document.Body.Items[1], src2.Document.Body.Items[1])
		sym.Assert(bytes.Equal(mediaOf(d, embedOf(r)), pic), "an added picture does not refer to its bytes")
		t, err := d.ReferTarget(l.ID)
		sym.Assert(err == nil && t == "http://new", "an added link does not refer to its target")
		n := len(d.Document.Body.Items[2].(*docx.Paragraph).Children)
		hasMedia(d, med, 2+n-1)
		d = Reopen(d)
	}
	sym.Reach("added")
}

// drawingIDs are the ids of the drawings of a document.
func drawingIDs(d *docx.Docx) (ids []int) {
	for _, x := range drawingsOf(d) {
		if p := docPrOf(x); p != nil {
			ids = append(ids, p.ID)
		}
	}
	return
}

// C19_kinds: an item of any kind with any value of any leaf.
func C19_kinds() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	b := kindPackage(kind, pickLeaf(kind))
	src, src2 := Open(b), Open(b)
	items, media, unchanged := spare(src.Document.Body.Items, []docx.Media{{Name: "image1.png", Data: []byte("1")}})
	d := docx.LoadBodyItems(items, media)
	if _, err := d.AddParagraph().AddInlineDrawing(png(1, 1, 1)); err != nil {
		panic(err)
	}
	unchanged()
	for k := 0; k < 2; k++ {
		sym.Assert(len(d.Document.Body.Items) == 2, "number of body items")
		sameBut(d.Document.Body.Items[0], src2.Document.Body.Items[0])
		hasMedia(d, []docx.Media{{Name: "image1.png", Data: []byte("1")}}, -1)
		if k == 0 {
			d = Reopen(d)
		}
	}
	sym.Reach("kinds")
}

// C19_names: two media with any names.
func C19_names() {
	var med []docx.Media
	for _, f := range twoFiles() {
		med = append(med, docx.Media{Name: f.name, Data: []byte(f.data)})
	}
	items, media, unchanged := spare([]interface{}{para()}, med)
	d := docx.LoadBodyItems(items, media)
	hasMedia(d, med, 2)
	data := png(2, 3, 7)
	r, err := d.AddParagraph().AddInlineDrawing(data)
	sym.Assert(err == nil, "a picture cannot be added")
	unchanged()
	for i := 0; i < 2; i++ {
		sym.Assert(bytes.Equal(mediaOf(d, embedOf(r)), data), "an added picture does not refer to its bytes")
		hasMedia(d, med, 3)
		d = Reopen(d)
	}
	sym.Reach("names")
}
