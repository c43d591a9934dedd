package h

import (
	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C20_names"] = C20_names
	All["C20_built"] = C20_built
	All["C20_opened"] = C20_opened
	All["C20_kinds"] = C20_kinds
	All["C20_loaded"] = C20_loaded
}

// sameRels asserts that two documents list and resolve the same relationships.
func sameRels(d, twin *docx.Docx) {
	a, b := relsOf(d), relsOf(twin)
	sym.Assert(len(a) == len(b), "number of relationships")
	for i, r := range b {
		sym.Assert(a[i].ID == r.ID && a[i].Type == r.Type && a[i].Target == r.Target && a[i].TargetMode == r.TargetMode, "list of relationships")
		x, err := d.ReferTarget(r.ID)
		y, err2 := twin.ReferTarget(r.ID)
		sym.Assert(x == y && (err == nil) == (err2 == nil), "target of a relationship")
		x, err = d.ReferID(r.Target)
		y, err2 = twin.ReferID(r.Target)
		sym.Assert(x == y && (err == nil) == (err2 == nil), "id of a target")
	}
}

// repeat saves d several times; twin is the same document, never saved
// before.
func repeat(d, twin *docx.Docx) {
	first := Save(d)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		sameItems(d.Document.Body.Items, twin.Document.Body.Items)
		sym.Assert(samePackage(Save(d), first), "two saves differ")
	}
	sameRels(d, twin)
	for _, m := range mediaParts(first) {
		x := d.Media(m.name)
		sym.Assert(x != nil && x.Name == m.name && string(x.Data) == m.data, "a save changes the media")
	}
	for _, x := range []*docx.Docx{d, twin} { // later operations
		p := x.AddParagraph()
		p.AddText("later")
		p.AddLink("link", "http://later")
		if _, err := p.AddInlineDrawing(png(2, 3, 9)); err != nil {
			panic(err)
		}
		p.AddAnchorShape(1, 2, "shape", "auto", "rect", nil)
	}
	sameRels(d, twin)
	later := Save(d)
	sym.Assert(samePackage(later, Save(twin)), "a save changes what later operations give")
	again := Open(later)
	sym.Assert(samePackage(Save(again), later), "saving an opened document gives other contents")
}

// C20_built: documents built by any sequence of additions.
func C20_built() {
	sym.Opt("maprev", pickN("order", 2))
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var ops []int
	for i := 0; i < n; i++ {
		ops = append(ops, pickN("op", 8))
	}
	s := symText("s", 0, 1)
	tmpl := pickN("template", 3)
	mk := func() *docx.Docx {
		d := docx.New()
		switch tmpl {
		case 1:
			d.UseTemplate("", []string{"a.txt", "b/c.xml"}, memFS{"a.txt": "A", "b/c.xml": "<c/>"})
		case 2:
			d.UseTemplate("t", []string{"a.txt"}, memFS{"xml/t/a.txt": "A"})
		}
		p := d.AddParagraph()
		for i, op := range ops {
			switch op {
			case 0:
				p.AddText(s).Color("ff0000").Bold().Size("20")
			case 1:
				p.AddLink(s, "t"+s)
			case 2:
				if _, err := p.AddInlineDrawing(png(2, 3, byte(i))); err != nil {
					panic(err)
				}
			case 3:
				if _, err := p.AddAnchorDrawing(gif(2, 3, byte(i))); err != nil {
					panic(err)
				}
			case 4:
				c := d.AddTable(2, 1, 100, nil).TableRows[1].TableCells[0]
				p = c.AddParagraph()
				p.AddText(s)
			case 5:
				p.AddInlineShape(1, 2, s, "auto", "rect", nil)
			case 6:
				d.WithA4Page()
			case 7:
				p = d.AddParagraph().Justification("center")
				p.AddTab()
				p.AddPageBreaks()
			}
		}
		return d
	}
	repeat(mk(), mk())
	sym.Reach("built")
}

// C20_opened: opened documents with links, media and other parts.
func C20_opened() {
	sym.Opt("maprev", pickN("order", 2))
	i := pickN("item", len(mediaItems))
	id := sym.Choice("id", "rId4", "rId1", "x", "rId2147483647")
	b := mediaDoc(id, symTarget("target"), "e", sym.Choice("media", "zImage1.PNG", "image100001.png", "noext"), sym.Str("data", 0, 1), i)
	ps := append(unzip(b), part{"word/styles.xml", sym.Str("styles", 0, 1)}, part{"word/theme/theme1.xml", ""}, part{"word/media/sub/x.png", "S"})
	b = mkZip(ps...)
	repeat(Open(b), Open(b))
	sym.Reach("opened")
}

// C20_kinds: an item of any kind with any value of any leaf.
func C20_kinds() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	b := kindPackage(kind, pickLeaf(kind))
	d, twin := Open(b), Open(b)
	first := Save(d)
	sameItems(d.Document.Body.Items, twin.Document.Body.Items)
	sym.Assert(samePackage(Save(d), first), "two saves differ")
	sym.Assert(samePackage(Save(Open(first)), first), "saving an opened document gives other contents")
	sym.Reach("kinds")
}

// C20_loaded: documents assembled from items, parts and copies of others.
func C20_loaded() {
	sym.Opt("maprev", pickN("order", 2))
	how := pickN("how", 3)
	i, j := pickN("item", len(mediaItems)), pickN("item", len(mediaItems))
	b := mediaDoc("rId4", "http://t", "rId5", "image1.png", sym.Str("data", 0, 1), i, j)
	mk := func() *docx.Docx {
		src := Open(b)
		switch how {
		case 0:
			return docx.LoadBodyItems(src.Document.Body.Items, []docx.Media{{Name: "image1.png", Data: []byte("x")}})
		case 1:
			d := docx.New()
			d.AppendFile(src)
			return d
		}
		n := 0
		ds := src.SplitByParagraph(func(*docx.Paragraph) bool { n++; return n == 2 })
		return ds[len(ds)-1]
	}
	repeat(mk(), mk())
	sym.Reach("loaded")
}

// C20_names: media with any names, in any order.
func C20_names() {
	sym.Opt("maprev", pickN("order", 2))
	var med []docx.Media
	ps := []part{{relsPart, relsXML("")}, {"word/document.xml", docHead + `<w:p/>` + docTail}}
	for _, f := range twoFiles() {
		med = append(med, docx.Media{Name: f.name, Data: []byte(f.data)})
		ps = append(ps, part{mediaDir + f.name, f.data})
	}
	loaded := sym.Bool("loaded")
	mk := func() *docx.Docx {
		if loaded {
			return docx.LoadBodyItems(nil, med)
		}
		return Open(mkZip(ps...))
	}
	d := mk()
	first := Save(d)
	hasMedia(d, med, 2)
	for i, m := range med {
		sym.Assert(mediaDir+m.Name == ps[i+2].name && string(m.Data) == ps[i+2].data, "a save changes the media")
	}
	if _, err := d.AddParagraph().AddInlineDrawing(png(2, 3, 9)); err != nil {
		panic(err)
	}
	hasMedia(d, med, 3)
	twin := mk()
	if _, err := twin.AddParagraph().AddInlineDrawing(png(2, 3, 9)); err != nil {
		panic(err)
	}
	sym.Assert(samePackage(Save(d), Save(twin)), "a save changes what later operations give")
	hasMedia(Open(first), med, 2)
	sym.Reach("names")
}
