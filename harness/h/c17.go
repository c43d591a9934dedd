package h

import (
	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C17_concurrent"] = C17_concurrent
	All["C17_names"] = C17_names
	All["C17_drawings"] = C17_drawings
}

// C17_concurrent: ids taken by goroutines at the same time.
func C17_concurrent() {
	sym.Opt("preempt", 2)
	d := docx.New()
	same := sym.Bool("same name")
	before := int(d.IncreaseID("x"))
	sym.Assert(before == 1, "the first id")
	per := 2
	if sym.Thorough() {
		per = 3
		sym.Opt("preempt", 3)
	}
	if !sym.Symbolic() {
		per = 4000 // whatever the schedule
	}
	got := make([][]uintptr, 2)
	done := make(chan int)
	for g := 0; g < 2; g++ {
		name := "x"
		if !same && g == 1 {
			name = "y"
		}
		go func(g int, name string) {
			for i := 0; i < per; i++ {
				got[g] = append(got[g], d.IncreaseID(name))
			}
			done <- g
		}(g, name)
	}
	<-done
	<-done
	if same {
		seen := map[uintptr]bool{}
		for g := range got {
			for i, x := range got[g] {
				sym.Assert(!seen[x], "an id is given twice")
				seen[x] = true
				sym.Assert(i == 0 || got[g][i-1] < x, "ids do not increase")
			}
		}
		for i := 0; i < 2*per; i++ {
			sym.Assert(seen[uintptr(2+i)], "an id is left out")
		}
		sym.Assert(int(d.IncreaseID("x")) == 2+2*per, "the next id")
	} else {
		for i := 0; i < per; i++ {
			sym.Assert(got[0][i] == uintptr(2+i), "ids under one name")
			sym.Assert(got[1][i] == uintptr(1+i), "ids under another name")
		}
	}
	sym.Reach("concurrent")
}

// C17_names: any sequence of names counts each name on its own.
func C17_names() {
	names := []string{anyArg("name"), sym.Choice("other", "", "x", "图片"), "图片"}
	d := docx.New()
	e := docx.New() // another document counts on its own
	var used []int
	n := 4
	for i := 0; i < n; i++ {
		k := pickN("k", 3)
		want := 1
		for _, u := range used {
			if names[u] == names[k] {
				want++
			}
		}
		sym.Assert(int(d.IncreaseID(names[k])) == want, "id under a name")
		used = append(used, k)
	}
	sym.Assert(e.IncreaseID(names[0]) == 1, "documents share ids")
	sym.Reach("names")
}

// drawingsOf lists the drawings at the top of the runs of the body and of the
// cells of its tables.
func drawingsOf(d *docx.Docx) (ds []*docx.Drawing) {
	para := func(p *docx.Paragraph) {
		for _, c := range p.Children {
			r, ok := c.(*docx.Run)
			if !ok {
				continue
			}
			for _, x := range r.Children {
				if dr, ok := x.(*docx.Drawing); ok {
					ds = append(ds, dr)
				}
			}
		}
	}
	for _, it := range d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			para(o)
		case *docx.Table:
			for _, r := range o.TableRows {
				for _, c := range r.TableCells {
					for _, p := range c.Paragraphs {
						para(p)
					}
				}
			}
		}
	}
	return
}

func docPrOf(d *docx.Drawing) *docx.WPDocPr {
	if d.Inline != nil {
		return d.Inline.DocPr
	}
	return d.Anchor.DocPr
}

// C17_drawings: the drawings added to a new or an opened document.
func C17_drawings() {
	var d *docx.Docx
	old, total := 0, 2
	if sym.Thorough() {
		total = 3
	}
	base := ""
	if sym.Bool("opened") {
		// ids as the library and as other programs give them
		id := sym.Choice("id", "1", "2", "99999", "100000", "100001", "100002", "2147483646", "0", "-5")
		at := sym.Pick("place", 2)
		dr := `<w:r><w:drawing><wp:inline><wp:docPr id="` + id + `" name="other"/></wp:inline></w:drawing></w:r>`
		if at == 1 {
			dr = `<w:r><w:drawing><wp:anchor><wp:docPr id="` + id + `" name="other"/></wp:anchor></w:drawing></w:r>`
		}
		base = `<w:p>` + dr + `</w:p>`
		if sym.Bool("table") {
			base = `<w:tbl><w:tr><w:tc>` + base + `</w:tc></w:tr></w:tbl>`
		}
		d = Open(bodyXML(base))
		old = 1
		total++
	} else {
		d = docx.New()
	}
	n := total - old
	name := sym.Choice("name", "图片", "shape", "")
	for i := 0; i < n; i++ {
		p := d.AddParagraph()
		switch sym.Concrete(sym.Pick("op", 5)) {
		case 0:
			if _, err := p.AddInlineDrawing(png(1, 2, 3)); err != nil {
				panic(err)
			}
		case 1:
			if _, err := p.AddAnchorDrawing(png(1, 2, 3)); err != nil {
				panic(err)
			}
		case 2:
			p.AddInlineShape(1, 2, name, "auto", "rect", nil)
		case 3:
			p.AddAnchorShape(1, 2, name, "auto", "rect", nil)
		case 4:
			p.AddInlineShape(1, 2, "other name", "auto", "rect", nil)
		}
		if i == 0 && sym.Bool("reopen") {
			d = Reopen(d)
			old++
		}
	}
	for k := 0; k < 2; k++ {
		ds := drawingsOf(d)
		sym.Assert(len(ds) == total, "number of drawings")
		for i := range ds {
			a := docPrOf(ds[i])
			sym.Assert(a != nil, "a drawing without properties")
			for j := 0; j < i; j++ {
				b := docPrOf(ds[j])
				sym.Assert(a.ID != b.ID, "two drawings have the same id")
				if j >= old {
					sym.Assert(a.Name != b.Name, "two drawings have the same name")
				}
			}
		}
		d = Reopen(d)
	}
	sym.Reach("drawings")
}
