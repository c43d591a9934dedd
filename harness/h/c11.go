package h

import (
	"reflect"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C11_drop"] = C11_drop
	All["C11_cells"] = C11_cells
	All["C11_keep"] = C11_keep
	All["C11_parsed"] = C11_parsed
}

// drawKind is the kind of a drawing.
type drawKind int

const (
	dkPic drawKind = iota
	dkShape
	dkCanvas
	dkGroup
	dkNothing   // graphic data without content
	dkNoData    // graphic without data
	dkNoGraphic // no graphic
	dkNone      // neither inline nor anchored
	dkCount
)

func drawingOfKind(k drawKind, anchor bool) *docx.Drawing {
	var g *docx.AGraphic
	if k < dkNoGraphic {
		g = &docx.AGraphic{}
	}
	if k < dkNoData {
		g.GraphicData = &docx.AGraphicData{}
	}
	switch k {
	case dkPic:
		g.GraphicData.Pic = &docx.Picture{}
	case dkShape:
		g.GraphicData.Shape = &docx.WordprocessingShape{}
	case dkCanvas:
		g.GraphicData.Canvas = &docx.WordprocessingCanvas{}
	case dkGroup:
		g.GraphicData.Group = &docx.WordprocessingGroup{}
	case dkNone:
		return &docx.Drawing{}
	}
	if anchor {
		return &docx.Drawing{Anchor: &docx.WPAnchor{Graphic: g}}
	}
	return &docx.Drawing{Inline: &docx.WPInline{Graphic: g}}
}

var dropNames = []string{"Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture", "Unknown"}

// dropped tells whether a drop operation removes a kind.
func dropped(name string, k drawKind) bool {
	switch name {
	case "Canvas":
		return k == dkCanvas
	case "Shape":
		return k == dkShape
	case "Group":
		return k == dkGroup
	case "ShapeAndCanvas":
		return k == dkShape || k == dkCanvas
	case "ShapeAndCanvasAndGroup":
		return k == dkShape || k == dkCanvas || k == dkGroup
	case "NilPicture":
		return k != dkPic
	}
	return false
}

func dropOf(p *docx.Paragraph, name string) {
	switch name {
	case "Canvas":
		p.DropCanvas()
	case "Shape":
		p.DropShape()
	case "Group":
		p.DropGroup()
	case "ShapeAndCanvas":
		p.DropShapeAndCanvas()
	case "ShapeAndCanvasAndGroup":
		p.DropShapeAndCanvasAndGroup()
	case "NilPicture":
		p.DropNilPicture()
	}
}

// dropRun is a run of drawings of any kinds between other children, and what
// a drop leaves of it.
func dropRun(n int, name string) (r *docx.Run, left []interface{}) {
	r = &docx.Run{RunProperties: &docx.RunProperties{}}
	add := func(x interface{}, keep bool) {
		r.Children = append(r.Children, x)
		if keep {
			left = append(left, x)
		}
	}
	add(&docx.Text{Text: "a"}, true)
	for i := 0; i < n; i++ {
		k := drawKind(pickN("drawing", int(dkCount)))
		add(drawingOfKind(k, sym.Bool("anchor")), !dropped(name, k))
		if i == 0 {
			add(&docx.Tab{}, true)
		}
	}
	add(&docx.Text{Text: "b"}, true)
	return
}

func sameElems(a, b []interface{}, what string) {
	sym.Assert(len(a) == len(b), what+": number")
	for i := range a {
		sym.Assert(a[i] == b[i], what+": order and identity")
	}
}

// C11_drop: drop operations of a paragraph.
func C11_drop() {
	name := dropNames[pickN("name", len(dropNames))]
	n := 2
	if sym.Thorough() {
		n = 3
	}
	r, left := dropRun(n, name)
	link := &docx.Hyperlink{ID: "x"}
	r2 := &docx.Run{Children: []interface{}{&docx.BarterRabbet{}}}
	r2left := []interface{}{r2.Children[0]}
	p := para(r, link, r2)
	kids := append([]interface{}{}, p.Children...)
	if sym.Bool("body") {
		d := docx.New()
		d.WithA4Page()
		d.Document.Body.Items = append(d.Document.Body.Items, p)
		it := append([]interface{}{}, d.Document.Body.Items...)
		d.Document.Body.DropDrawingOf(name)
		sameElems(d.Document.Body.Items, it, "body items")
	} else {
		dropOf(p, name)
	}
	sameElems(p.Children, kids, "children of the paragraph")
	sameElems(r.Children, left, "children of the run")
	sameElems(r2.Children, r2left, "children of another run")
	sym.Assert(r.RunProperties != nil, "formatting of the run")
	sym.Reach("drop")
}

// C11_cells: drop operations reach every paragraph of every cell.
func C11_cells() {
	name := dropNames[pickN("name", len(dropNames))]
	d := docx.New()
	t := d.AddTable(2, 2, 0, nil)
	type pl struct {
		r    *docx.Run
		left []interface{}
	}
	var all []pl
	at := sym.Pick("at", 4)
	for i := 0; i < 4; i++ {
		c := t.TableRows[i/2].TableCells[i%2]
		for j := 0; j < 2; j++ {
			n := 0
			if i == at {
				n = 1
			}
			r, left := dropRun(n, name)
			p := c.AddParagraph()
			p.Children = append(p.Children, r)
			all = append(all, pl{r, left})
		}
	}
	d.Document.Body.DropDrawingOf(name)
	for _, x := range all {
		sameElems(x.r.Children, x.left, "children of a run in a cell")
	}
	sym.Assert(len(t.TableRows) == 2 && len(t.TableRows[1].TableCells) == 2 && len(t.TableRows[1].TableCells[1].Paragraphs) == 2, "table")
	sym.Reach("cells")
}

// C11_keep: keeping by type on every level.
func C11_keep() {
	level := sym.Pick("level", 3)
	var pool []func() interface{}
	switch level {
	case 0:
		pool = []func() interface{}{
			func() interface{} { return &docx.Paragraph{} },
			func() interface{} { return &docx.Table{} },
			func() interface{} { return &docx.SectPr{} },
		}
	case 1:
		pool = []func() interface{}{
			func() interface{} { return &docx.Run{} },
			func() interface{} { return &docx.Hyperlink{} },
			func() interface{} { return &docx.RunProperties{} },
		}
	case 2:
		pool = []func() interface{}{
			func() interface{} { return &docx.Text{Text: "x"} },
			func() interface{} { return &docx.Tab{} },
			func() interface{} { return &docx.BarterRabbet{} },
			func() interface{} { return &docx.Drawing{} },
		}
	}
	var names []string
	keep := map[string]bool{}
	for _, mk := range pool {
		if sym.Bool("keep") {
			n := reflect.TypeOf(mk()).String()
			names = append(names, n)
			keep[n] = true
		}
	}
	if sym.Bool("other") {
		names = append(names, "*docx.None")
	}
	n := sym.Concrete(sym.Int("n", 0, 3))
	var kids, left []interface{}
	for i := 0; i < n; i++ {
		x := pool[pickN("kid", len(pool))]()
		kids = append(kids, x)
		if keep[reflect.TypeOf(x).String()] {
			left = append(left, x)
		}
	}
	switch level {
	case 0:
		d := docx.New()
		d.Document.Body.Items = kids
		d.Document.Body.KeepElements(names...)
		sameElems(d.Document.Body.Items, left, "kept items")
	case 1:
		p := para(kids...)
		p.KeepElements(names...)
		sameElems(p.Children, left, "kept children of a paragraph")
	case 2:
		r := &docx.Run{Children: kids}
		r.KeepElements(names...)
		sameElems(r.Children, left, "kept children of a run")
	}
	sym.Reach("keep")
}

// C11_parsed: filters on drawings of an opened document.
func C11_parsed() {
	kinds := []string{"picture", "shape", "canvas", "group", "inline", "anchor"}
	is := []drawKind{dkPic, dkShape, dkCanvas, dkGroup, dkNoData, dkNoData}
	i := pickN("kind", len(kinds))
	name := dropNames[pickN("name", len(dropNames))]
	d := Open(bodyXML(goldenXML[kinds[i]] + `<w:tbl><w:tr><w:tc>` + goldenXML[kinds[i]] + `</w:tc></w:tr></w:tbl>`))
	want := Open(bodyXML(goldenXML[kinds[i]])).Document.Body.Items[0]
	if dropped(name, is[i]) {
		want.(*docx.Paragraph).Children[0].(*docx.Run).Children = []interface{}{}
	}
	d.Document.Body.DropDrawingOf(name)
	sym.Assert(len(d.Document.Body.Items) == 2, "body items")
	sameBut(d.Document.Body.Items[0], want)
	sameBut(d.Document.Body.Items[1].(*docx.Table).TableRows[0].TableCells[0].Paragraphs[0], want)
	sym.Reach("parsed")
}
