package h

import (
	"archive/zip"
	"bytes"
	"io"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

// Sizes beyond the small ones of the other harnesses: long texts, large parts
// and long lists, with symbolic bytes at some places.

func init() {
	All["C01_long"] = C01_long
	All["C06_many"] = C06_many
	All["C07_large"] = C07_large
	All["C07_many"] = C07_many
	All["C08_many"] = C08_many
	All["C09_many"] = C09_many
	All["C10_many"] = C10_many
	All["C11_many"] = C11_many
	All["C12_large"] = C12_large
	All["C13_large"] = C13_large
	All["C13_many"] = C13_many
	All["C15_many"] = C15_many
	All["C17_many"] = C17_many
	All["C19_many"] = C19_many
	All["C20_many"] = C20_many
	All["C21_many"] = C21_many
	All["C03_many"] = C03_many
}

// long is a text of n bytes, no two places of which look the same.
func long(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(byte('a' + i%26))
	}
	return b.String()[:n]
}

// bytesOf is content of n bytes that are not printable.
func bytesOf(n int) string {
	b := make([]byte, n)
	x := uint32(n)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

// with puts s into the text at the beginning, in the middle or at the end.
func with(text, s string) string {
	k := []int{0, len(text) / 2, len(text)}[pickN("where", 3)]
	return text[:k] + s + text[k:]
}

// packed is a package with compressed parts.
func packed(ps ...part) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, p := range ps {
		f, err := w.Create(p.name)
		if err == nil {
			_, err = io.WriteString(f, p.data)
		}
		if err != nil {
			panic(err)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// C01_long: long texts.
func C01_long() {
	sizes := []int{30, 254, 255, 256, 1000, 4094, 4096, 10000, 33000}
	if sym.Thorough() {
		sizes = append(sizes, 66000, 130000)
	}
	s := with(long(sizes[pickN("size", len(sizes))]), symText("s", 0, 1))
	d := docx.New()
	p := d.AddParagraph()
	p.AddText(s)
	p.AddText("end")
	sym.Assert(p.String() == s+"end", "text of the paragraph")
	d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph().AddText(s)
	got := Reopen(d).Document.Body.Items
	sym.Assert(got[0].(*docx.Paragraph).String() == s+"end", "text after save and open")
	sym.Assert(got[1].(*docx.Table).TableRows[0].TableCells[0].Paragraphs[0].String() == s, "text of a cell after save and open")
	sym.Reach("long")
}

// C06_many: many links and pictures.
func C06_many() {
	n := 20 + 90*pickN("n", 2)
	if sym.Thorough() {
		n *= 3
	}
	s := symText("target", 0, 1)
	d := docx.New()
	if sym.Bool("opened") {
		d = Open(mediaDoc("rId"+strconv.Itoa([]int{9, 99, 100, 254, 65535}[pickN("id", 5)]), "http://t", "rId2", "a.png", "A", 0))
	}
	before := relsOf(d)
	p := d.AddParagraph()
	var refs []ref
	for i := 0; i < n; i++ {
		if i%7 == 3 {
			data := png(2, 3, byte(i))
			r, err := p.AddInlineDrawing(data)
			sym.Assert(err == nil, "a picture is refused")
			refs = append(refs, ref{run: r, data: data})
			continue
		}
		t := s + "http://" + strconv.Itoa(i)
		refs = append(refs, ref{link: p.AddLink("l", t), target: t})
	}
	for k := 0; k < 2; k++ {
		rs := relsOf(d)
		sym.Assert(len(rs) == len(before)+n, "number of relationships")
		ids := map[string]bool{}
		for i, r := range rs {
			sym.Assert(!ids[r.ID], "an id twice")
			ids[r.ID] = true
			if i < len(before) {
				sym.Assert(r == before[i], "an old relationship changed")
			}
		}
		for _, r := range refs {
			if r.link != nil {
				t, err := d.ReferTarget(r.link.ID)
				sym.Assert(err == nil && t == r.target, "a link does not refer to its target")
				id, err := d.ReferID(r.target)
				sym.Assert(err == nil && id == r.link.ID, "lookup of the id of a target")
				continue
			}
			sym.Assert(bytes.Equal(mediaOf(d, embedOf(r.run)), r.data), "a picture does not refer to its bytes")
		}
		if k == 0 {
			d = Reopen(d)
		}
	}
	sym.Reach("many")
}

var largeSizes = []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 40000, 70001}

// large is the content of a large part with a symbolic byte in it.
func large() string {
	b := []byte(bytesOf(largeSizes[pickN("size", len(largeSizes))]))
	b[[]int{0, len(b) / 2, len(b) - 1}[pickN("where", 3)]] = sym.Byte("b")
	return string(b)
}

// C07_large: large media files.
func C07_large() {
	want := []part{{"a.png", large()}, {"b.png", "B"}}
	var d *docx.Docx
	if sym.Bool("loaded") {
		d = docx.LoadBodyItems([]interface{}{para()}, []docx.Media{{Name: want[0].name, Data: []byte(want[0].data)}, {Name: "b.png", Data: []byte("B")}})
	} else {
		d = Open(packed(part{relsPart, relsXML("")}, part{mediaDir + want[0].name, want[0].data}, part{mediaDir + "b.png", "B"}, part{"word/document.xml", docHead + "<w:p/>" + docTail}))
	}
	for i := 0; i < 2; i++ {
		d = Open(checkMedia(d, want))
	}
	sym.Reach("large")
}

// C07_many: many pictures.
func C07_many() {
	d := docx.New()
	last := sym.Byte("last")
	if sym.Bool("opened") {
		d = Open(mediaDoc("rId1", "t", "rId2", "image100020.png", string(png(1, 1, last)), 0))
	}
	old := mediaParts(Save(d))
	p := d.AddParagraph()
	var want []part
	for i := 0; i < 140; i++ {
		data := append(png(2, 3, byte(i)), last)
		if i%3 == 0 {
			data = append(gif(2, 3, byte(i)), last)
		}
		r, err := p.AddInlineDrawing(data)
		sym.Assert(err == nil, "a picture is refused")
		t, err := d.ReferTarget(embedOf(r))
		sym.Assert(err == nil && strings.HasPrefix(t, "media/"), "target of a picture")
		want = append(want, part{t[len("media/"):], string(data)})
	}
	want = append(old, want...)
	distinctNames(want)
	d = Open(checkMedia(d, want))
	checkMedia(d, want)
	sym.Reach("many")
}

// C08_many: many runs, in groups.
func C08_many() {
	n := []int{9, 40, 130}[pickN("n", 3)]
	g := 1 + pickN("group", 5)
	s := symText("s", 0, 1)
	p := docx.New().AddParagraph()
	var want []string
	for i := 0; i < n; i++ {
		r := &docx.Run{RunProperties: &docx.RunProperties{Size: &docx.Size{Val: strconv.Itoa(i / g)}}, Children: []interface{}{&docx.Text{Text: s + strconv.Itoa(i)}}}
		p.Children = append(p.Children, r)
		if i%g == 0 {
			want = append(want, "")
		}
		want[len(want)-1] += s + strconv.Itoa(i)
	}
	np := p.MergeText(docx.MergeSamePropRuns)
	sym.Assert(len(np.Children) == len(want), "number of merged runs")
	for i, w := range want {
		r := np.Children[i].(*docx.Run)
		sym.Assert(len(tokens([]*docx.Run{r})) == 1 && tokens([]*docx.Run{r})[0].text == w, "text of a merged run")
		sym.Assert(r.RunProperties.Size.Val == strconv.Itoa(i), "formatting of a merged run")
	}
	sym.Assert(len(p.Children) == n && np.String() == p.String(), "plain text")
	all := p.MergeText(docx.MergeAllRuns)
	sym.Assert(len(all.Children) == 1 && all.String() == p.String(), "all runs merged")
	sym.Reach("many")
}

// manyItems fills a document with paragraphs, tables and sections.
func manyItems(d *docx.Docx, n int, s string) {
	for i := 0; i < n; i++ {
		switch i % 5 {
		case 1:
			d.AddTable(1, 2, 0, nil).TableRows[0].TableCells[1].AddParagraph().AddText(s + "t" + strconv.Itoa(i))
		case 3:
			p := d.AddParagraph()
			p.AddLink("l"+strconv.Itoa(i), "http://"+s+strconv.Itoa(i))
			if _, err := p.AddInlineDrawing(png(2, 3, byte(i))); err != nil {
				panic(err)
			}
		default:
			d.AddParagraph().AddText(s + strconv.Itoa(i))
		}
	}
}

func symLetter(name string) string {
	s := sym.Str(name, 0, 1)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	return s
}

// C09_many: a long document appended to a long one.
func C09_many() {
	n, k := []int{3, 30, 70}[pickN("n", 3)], []int{3, 40}[pickN("k", 2)]
	a, b := docx.New(), docx.New()
	manyItems(a, k, "")
	manyItems(b, n, symLetter("s"))
	ra, rb := refsOf(a), refsOf(b)
	texts := bodyTexts(b)
	a.AppendFile(b)
	for i := 0; i < 2; i++ {
		it := a.Document.Body.Items
		sym.Assert(len(it) == n+k && len(b.Document.Body.Items) == n, "number of body items")
		for j, t := range bodyTexts(a)[k:] {
			sym.Assert(t == texts[j], "text of an appended item")
		}
		got := refsOf(a)
		sym.Assert(len(got) == len(ra)+len(rb), "number of links and pictures")
		sameRefs(got[:len(ra)], ra, "receiver")
		sameRefs(got[len(ra):], rb, "appended")
		uniqueIDs(a)
		a = Reopen(a)
	}
	sym.Reach("many")
}

// bodyTexts are the texts of the items without links and pictures.
func bodyTexts(d *docx.Docx) (ts []string) {
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			t := "P"
			for _, c := range x.Children {
				if r, ok := c.(*docx.Run); ok {
					for _, k := range r.Children {
						if s, ok := k.(*docx.Text); ok {
							t += s.Text
						}
					}
				}
			}
			ts = append(ts, t)
		case *docx.Table:
			ts = append(ts, "T"+x.String())
		default:
			ts = append(ts, "?")
		}
	}
	return
}

// C10_many: a long document split at every few paragraphs.
func C10_many() {
	n, k := []int{30, 90}[pickN("n", 2)], 1+pickN("k", 7)
	d := docx.New()
	manyItems(d, n, symLetter("s"))
	refs, texts := refsOf(d), bodyTexts(d)
	cut := map[*docx.Paragraph]bool{}
	for i, it := range d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok {
			cut[p] = i%k == 0
		}
	}
	docs := d.SplitByParagraph(func(p *docx.Paragraph) bool { return cut[p] })
	i, at := 0, -1
	var got []refVal
	for _, it := range d.Document.Body.Items {
		p, ok := it.(*docx.Paragraph)
		if ok && cut[p] || at < 0 {
			at++
			i = 0
		}
		sym.Assert(at < len(docs) && i < len(docs[at].Document.Body.Items), "place of a cut")
		i++
	}
	sym.Assert(at == len(docs)-1, "number of documents")
	var all []string
	for _, x := range docs {
		x = Reopen(x)
		got = append(got, refsOf(x)...)
		all = append(all, bodyTexts(x)...)
		uniqueIDs(x)
	}
	sym.Assert(len(all) == n, "number of items")
	for i := range all {
		sym.Assert(all[i] == texts[i], "order and text of the items")
	}
	sameRefs(got, refs, "links and pictures of the parts")
	sameRefs(refsOf(d), refs, "links and pictures of the original")
	sym.Reach("many")
}

// C11_many: drop and keep among many.
func C11_many() {
	name := dropNames[pickN("name", len(dropNames))]
	n := []int{10, 60}[pickN("n", 2)]
	step := 1 + pickN("step", 3)
	r := &docx.Run{}
	var left, kept []interface{}
	for i := 0; i < n; i++ {
		k := drawKind(i / step % int(dkCount))
		x := drawingOfKind(k, i%2 == 1)
		r.Children = append(r.Children, x)
		if !dropped(name, k) {
			left = append(left, x)
		}
		if i%9 == 4 {
			t := &docx.Text{Text: "t"}
			r.Children = append(r.Children, t)
			left, kept = append(left, t), append(kept, t)
		}
	}
	d := docx.New()
	p := d.AddParagraph()
	p.Children = append(p.Children, r)
	if sym.Bool("keep") {
		r.KeepElements("*docx.Text")
		sameElems(r.Children, kept, "kept children")
	} else {
		d.Document.Body.DropDrawingOf(name)
		sameElems(r.Children, left, "children of the run")
	}
	sym.Reach("many")
}

// C12_large: the destination of a package with a large part fails at any byte.
func C12_large() {
	d := Open(packed(part{relsPart, relsXML("")}, part{mediaDir + "a.bin", bytesOf(20000)}, part{"word/big.bin", bytesOf(70001)}, part{"word/document.xml", docHead + "<w:p/>" + docTail}))
	total := len(Save(d))
	k := sym.Int("at", 0, 1<<20)
	if !sym.Symbolic() {
		k %= total
	}
	sym.Assume(k < total)
	w := &faultWriter{limit: k, short: sym.Bool("short")}
	n, err := d.WriteTo(w)
	sym.Assert(err != nil, "a failure of the destination is not reported")
	sym.Assert(n == int64(w.n), "number of bytes written")
	sym.Reach("large")
}

// C13_large: large parts and template files.
func C13_large() {
	want := []part{{"word/styles.xml", large()}, {"x", "X"}}
	var d *docx.Docx
	if sym.Bool("template") {
		d = docx.New().UseTemplate("", []string{"word/styles.xml", "x"}, memFS{"word/styles.xml": want[0].data, "x": "X"})
	} else {
		d = Open(packed(append([]part{{relsPart, relsXML("")}, {"word/document.xml", docHead + docTail}}, want...)...))
	}
	for i := 0; i < 2; i++ {
		b := Save(d)
		written(unzip(b), want)
		d = Open(b)
	}
	sym.Reach("large")
}

// C13_many: many parts.
func C13_many() {
	n := []int{30, 120}[pickN("n", 2)]
	tmpl := sym.Bool("template")
	m := memFS{}
	var want []part
	var names []string
	for i := 0; i < n; i++ {
		p := part{"word/p" + strconv.Itoa(i) + ".xml", strconv.Itoa(i)}
		if i%8 == 5 {
			p.name = "customXml/item" + strconv.Itoa(i)
		}
		if i == n/2 {
			p.data = sym.Str("data", 0, 1)
		}
		want = append(want, p)
		names = append(names, p.name)
		m[p.name] = p.data
	}
	var d *docx.Docx
	if tmpl {
		d = docx.New().UseTemplate("", names, m)
	} else {
		d = Open(mkZip(append([]part{{relsPart, relsXML("")}, {"word/document.xml", docHead + docTail}}, want...)...))
	}
	for i := 0; i < 2; i++ {
		b := Save(d)
		written(unzip(b), want)
		d = Open(b)
	}
	sym.Reach("many")
}

// C03_many: a table with many rows or columns keeps its cells.
func C03_many() {
	rows, cols := []int{1, 4, 70}[pickN("rows", 3)], []int{1, 5, 64}[pickN("cols", 3)]
	sym.Assume(rows*cols < 300)
	s := symText("s", 0, 1)
	d := docx.New()
	t := d.AddTable(rows, cols, 0, nil)
	at := []int{0, rows * cols / 2, rows*cols - 1}[pickN("at", 3)]
	for i := 0; i < rows*cols; i++ {
		c := t.TableRows[i/cols].TableCells[i%cols]
		c.TableCellProperties.GridSpan = &docx.WGridSpan{Val: i + 1}
		x := strconv.Itoa(i)
		if i == at {
			x += s
		}
		c.AddParagraph().AddText(x)
	}
	got := Reopen(d).Document.Body.Items
	sym.Assert(len(got) == 1, "number of body items")
	sameBut(got[0], interface{}(t))
	sym.Reach("many")
}

// C15_many: many rows or columns.
func C15_many() {
	rows, cols := []int{1, 33, 130}[pickN("rows", 3)], []int{1, 33, 64}[pickN("cols", 3)]
	sym.Assume(rows*cols < 2200)
	d := docx.New()
	var t *docx.Table
	twips := sym.Bool("twips")
	if twips {
		var h, w []int64
		for i := 0; i < rows; i++ {
			h = append(h, int64(100+i))
		}
		for i := 0; i < cols; i++ {
			w = append(w, int64(500+i))
		}
		t = d.AddTableTwips(h, w, 9000, nil)
	} else {
		t = d.AddTable(rows, cols, 9000, nil)
	}
	for i := 0; i < 2; i++ {
		sym.Assert(len(t.TableRows) == rows, "number of rows")
		for r, row := range t.TableRows {
			sym.Assert(len(row.TableCells) == cols, "number of cells")
			if twips {
				sym.Assert(row.TableRowProperties.TableRowHeight.Val == int64(100+r), "height of a row")
				for c, cell := range row.TableCells {
					sym.Assert(cell.TableCellProperties.TableCellWidth.W == int64(500+c), "width of a cell")
				}
			}
		}
		t = Reopen(d).Document.Body.Items[0].(*docx.Table)
	}
	sym.Reach("many")
}

// C17_many: the ids of many drawings, also of pictures and shapes in turn.
func C17_many() {
	d := docx.New()
	if sym.Bool("opened") {
		d.AddParagraph()
		for i := 0; i < 12; i++ {
			if _, err := d.AddParagraph().AddInlineDrawing(png(2, 3, 1)); err != nil {
				panic(err)
			}
		}
		d = Reopen(d)
	}
	k := 1 + pickN("shapes", 4)
	p := d.AddParagraph()
	for i := 0; i < 130; i++ {
		if i%k == 0 {
			p.AddAnchorShape(1, 2, "shape", "auto", "rect", nil)
		} else if _, err := p.AddAnchorDrawing(png(2, 3, byte(i))); err != nil {
			panic(err)
		}
	}
	ids := map[int]bool{}
	ds := drawingsOf(d)
	for _, x := range ds {
		pr := docPrOf(x)
		sym.Assert(!ids[pr.ID], "a drawing id twice")
		ids[pr.ID] = true
	}
	uniqueIDs(d)
	sym.Reach("many")
}

// C19_many: many items and media.
func C19_many() {
	n, k := []int{12, 80}[pickN("items", 2)], []int{1, 12, 110}[pickN("media", 3)]
	var items []interface{}
	for i := 0; i < n; i++ {
		items = append(items, para(&docx.Run{RunProperties: &docx.RunProperties{}, Children: []interface{}{&docx.Text{Text: strconv.Itoa(i)}}}))
	}
	b := sym.Byte("b")
	var media []docx.Media
	for i := 0; i < k; i++ {
		media = append(media, docx.Media{Name: "image" + strconv.Itoa(i) + ".png", Data: []byte{byte(i), b}})
	}
	orig := append([]interface{}{}, items...)
	its, med, unchanged := spare(items, media)
	d := docx.LoadBodyItems(its, med)
	data := png(2, 3, 7)
	for i := 0; i < 3; i++ {
		_, err := d.AddParagraph().AddInlineDrawing(append(data, byte(i)))
		sym.Assert(err == nil, "a picture cannot be added")
	}
	unchanged()
	for i := 0; i < 2; i++ {
		sym.Assert(len(d.Document.Body.Items) == n+3, "number of body items")
		for j := range orig {
			sameBut(d.Document.Body.Items[j], orig[j])
		}
		hasMedia(d, media, k+3)
		d = Reopen(d)
	}
	sym.Reach("many")
}

// C20_many: a long document saved again and again.
func C20_many() {
	sym.Opt("maprev", pickN("order", 2))
	n := []int{20, 60}[pickN("n", 2)]
	s := symLetter("s")
	mk := func() *docx.Docx {
		d := docx.New()
		manyItems(d, n, s)
		return d
	}
	repeat(mk(), mk())
	sym.Reach("many")
}

// C21_many: long paragraphs and tables.
func C21_many() {
	d := docx.New()
	n := []int{10, 80}[pickN("n", 2)]
	s := symText("s", 0, 1)
	p := d.AddParagraph()
	want := ""
	for i := 0; i < n; i++ {
		x := strconv.Itoa(i)
		switch i % 4 {
		case 0:
			p.AddText(x + s)
			want += x + s
		case 1:
			p.AddTab()
			want += "\t"
		case 2:
			p.AddLink(s+x, "http://"+x)
			want += "[" + s + x + "](http://" + x + ")"
		case 3:
			p.AddText(x).AddTab()
			want += x + "\t"
		}
	}
	sym.Assert(p.String() == want, "plain text")
	d = Reopen(d)
	sym.Assert(d.Document.Body.Items[0].(*docx.Paragraph).String() == want, "plain text after save and open")
	sym.Reach("many")
}
