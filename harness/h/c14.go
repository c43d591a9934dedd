package h

import (
	"bytes"
	"encoding/xml"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C14_place"] = C14_place
	All["C14_missing"] = C14_missing
	All["C14_attr"] = C14_attr
	All["C14_text"] = C14_text
	All["C14_package"] = C14_package
	All["C14_rels"] = C14_rels
	All["C14_pair"] = C14_pair
	c14Tables()
}

// xelem is an element of a reference document.
type xelem struct {
	kind, name, path   string // path is the chain of open elements
	open, inner, outer int    // where it starts, its content starts, its content ends
	end                int
	attrs              [][2]int // where its attributes are, with the blank before them
}

var (
	c14Elems  []xelem  // every element of every reference document
	c14Paths  []string // the distinct chains of elements
	c14Names  []string // the distinct element names
	c14Attrs  []string // the distinct chains with an attribute: path|attribute
	c14Spares = []string{"w:hyperlink", "w:instrText", "w:br", "w:tab", "w:t", "w:txbxContent", "mc:AlternateContent", "mc:Choice", "mc:Fallback", "wps:bodyPr", "w:body", "w:document", "x:unknown"}
)

// scanXML lists the elements of a reference document.
func scanXML(kind, s string) (es []xelem) {
	var open []int
	path := ""
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '<')
		if j < 0 {
			break
		}
		i += j
		j = i + strings.IndexByte(s[i:], '>')
		if s[i+1] == '/' {
			k := open[len(open)-1]
			open = open[:len(open)-1]
			es[k].outer, es[k].end = i, j+1
			path = path[:strings.LastIndexByte(path, '/')]
			i = j + 1
			continue
		}
		tag := s[i+1 : j]
		name := tag
		if k := strings.IndexByte(tag, ' '); k >= 0 {
			name = tag[:k]
		}
		path += "/" + name
		e := xelem{kind: kind, name: name, path: path, open: i, inner: j + 1}
		for k := i + 1 + len(name); k < j; {
			q := k + strings.IndexByte(s[k:], '"')
			q += 1 + strings.IndexByte(s[q+1:], '"')
			e.attrs = append(e.attrs, [2]int{k, q + 1})
			k = q + 1
		}
		open = append(open, len(es))
		es = append(es, e)
		i = j + 1
	}
	return
}

func c14Tables() {
	seen := map[string]bool{}
	add := func(list *[]string, s string) {
		if !seen[s] {
			seen[s] = true
			*list = append(*list, s)
		}
	}
	add(&c14Paths, "")
	for _, k := range goldenKinds {
		for _, e := range scanXML(k, goldenXML[k]) {
			c14Elems = append(c14Elems, e)
			// runs and fills look the same wherever they are
			p := e.path
			if i := strings.LastIndexByte(p[:strings.LastIndexByte(p, '/')], '/'); i >= 0 {
				if seen["|"+p[i:]] {
					continue
				}
				seen["|"+p[i:]] = true
			}
			add(&c14Paths, p)
			for _, a := range e.attrs {
				s := goldenXML[k][a[0]+1 : a[1]]
				add(&c14Attrs, p+"|"+s[:strings.IndexByte(s, '=')])
			}
			if !seen["name:"+e.name] {
				seen["name:"+e.name] = true
				c14Names = append(c14Names, e.name)
			}
		}
	}
	for _, n := range c14Spares {
		if !seen["name:"+n] {
			seen["name:"+n] = true
			c14Names = append(c14Names, n)
		}
	}
	add(&c14Paths, "/w:p/w:hyperlink")
	add(&c14Paths, "/w:p/w:hyperlink/w:r")
	add(&c14Paths, "/w:p/w:r/mc:AlternateContent")
}

// chain wraps content into the elements of a path.
func chain(path, content string) string {
	if path == "" {
		return content
	}
	ns := strings.Split(path[1:], "/")
	for i := len(ns) - 1; i >= 0; i-- {
		open := ns[i]
		if open == "mc:Choice" {
			open += ` Requires="wps"`
		}
		content = "<" + open + ">" + content + "</" + ns[i] + ">"
	}
	return content
}

// walkParas calls f for every paragraph, also those in shapes.
func walkParas(x interface{}, f func(*docx.Paragraph), r func(*docx.Run), dr func(*docx.Drawing)) {
	each := func(xs []interface{}) {
		for _, y := range xs {
			walkParas(y, f, r, dr)
		}
	}
	graphic := func(g *docx.AGraphic) {
		if g == nil || g.GraphicData == nil {
			return
		}
		if g.GraphicData.Shape != nil {
			walkParas(g.GraphicData.Shape, f, r, dr)
		}
		if g.GraphicData.Canvas != nil {
			each(g.GraphicData.Canvas.Items)
		}
		if g.GraphicData.Group != nil {
			each(g.GraphicData.Group.Elems)
		}
	}
	switch o := x.(type) {
	case *docx.Paragraph:
		kids := o.Children
		f(o)
		each(kids)
	case *docx.Table:
		for _, tr := range o.TableRows {
			for _, c := range tr.TableCells {
				for _, p := range c.Paragraphs {
					walkParas(p, f, r, dr)
				}
			}
		}
	case *docx.Run:
		kids := o.Children
		r(o)
		each(kids)
	case *docx.Hyperlink:
		walkParas(&o.Run, f, r, dr)
	case *docx.Drawing:
		dr(o)
		if o.Inline != nil {
			graphic(o.Inline.Graphic)
		}
		if o.Anchor != nil {
			graphic(o.Anchor.Graphic)
		}
	case *docx.WordprocessingShape:
		if o.TextBox != nil && o.TextBox.Content != nil {
			for i := range o.TextBox.Content.Paragraphs {
				walkParas(&o.TextBox.Content.Paragraphs[i], f, r, dr)
			}
		}
	case *docx.WordprocessingCanvas:
		each(o.Items)
	case *docx.WordprocessingGroup:
		each(o.Elems)
	case *docx.WPGGroupShape:
		each(o.Elems)
	}
}

func walkDoc(d *docx.Docx, f func(*docx.Paragraph), r func(*docx.Run), dr func(*docx.Drawing)) {
	for _, it := range append([]interface{}{}, d.Document.Body.Items...) {
		walkParas(it, f, r, dr)
	}
}

// write saves without looking at the error.
func write(d *docx.Docx) {
	var b bytes.Buffer
	d.WriteTo(&b)
}

var noRun, noDrawing = func(*docx.Run) {}, func(*docx.Drawing) {}

// exercise does with an opened document whatever can be done with it.
func exercise(pkg []byte, part int) {
	d, err := parse(pkg)
	if err != nil {
		sym.Reach("error")
		return
	}
	switch part {
	case 0:
		for _, it := range d.Document.Body.Items {
			if t, ok := it.(*docx.Table); ok {
				_ = t.String()
			}
		}
		walkDoc(d, func(p *docx.Paragraph) {
			_ = p.String()
			for _, rule := range []docx.RunMergeRule{docx.MergeAllRuns, docx.MergeSamePropRuns, docx.MergeSamePropRunsOf("Bold", "Size", "Color", "Fonts")} {
				np := p.MergeText(rule)
				_ = np.String()
			}
		}, noRun, noDrawing)
		write(d)
	case 1:
		for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return true }) {
			write(x)
		}
		to := docx.New()
		to.AppendFile(d)
		to.AppendFile(d)
		write(to)
		d.AppendFile(to)
		write(d)
		for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return false }) {
			x.AddParagraph().AddText("x")
			write(x)
		}
	case 2:
		addContent(d)
		write(d)
	case 3:
		walkDoc(d, func(p *docx.Paragraph) {
			for _, drop := range []func(){p.DropNilPicture, p.DropCanvas, p.DropShape, p.DropGroup, p.DropShapeAndCanvas, p.DropShapeAndCanvasAndGroup} {
				drop()
			}
			p.KeepElements("*docx.Run")
		}, func(r *docx.Run) { r.KeepElements("*docx.Text", "*docx.Drawing") }, noDrawing)
		write(d)
		d, _ = parse(pkg)
		for _, n := range []string{"NilPicture", "Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup"} {
			d.Document.Body.DropDrawingOf(n)
		}
		d.Document.Body.KeepElements("*docx.Table")
		write(d)
		d.AddParagraph().AddText("x")
		d.Document.Body.KeepElements()
		write(d)
	}
	sym.Reach("exercised")
}

// addContent uses every setter and every way to add.
func addContent(d *docx.Docx) {
	pic := gif(1, 2, 3)
	for _, it := range d.Document.Body.Items {
		if t, ok := it.(*docx.Table); ok {
			t.Justification("center")
			for _, r := range t.TableRows {
				r.Justification("center")
				for _, c := range r.TableCells {
					c.Shade("clear", "auto", "ff0000")
					c.AddParagraph().AddText("new")
				}
			}
		}
	}
	walkDoc(d, func(p *docx.Paragraph) {
		p.Justification("left").Style("1").NumPr("1", "2").NumFont("a", "b", "c", "d").NumSize("3")
		p.AddText("new\ttext")
		p.AddTab()
		p.AddPageBreaks()
		p.AddLink("l", "t")
		p.AddInlineDrawing(pic)
		p.AddAnchorDrawing(pic)
		p.AddInlineShape(1, 2, "n", "auto", "rect", nil)
		p.AddAnchorShape(1, 2, "n", "auto", "rect", nil)
		_ = p.String()
	}, func(r *docx.Run) {
		r.Color("c").Size("1").SizeCs("1").Shade("a", "b", "c").Spacing(1).Bold().Italic().Underline("u").Highlight("h").Strike(true).AddTab().Font("a", "b", "c", "d")
	}, func(x *docx.Drawing) {
		if x.Inline != nil {
			x.Inline.Size(3, 4)
		}
		if x.Anchor != nil {
			x.Anchor.Size(3, 4)
		}
	})
	d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph()
	d.WithA4Page()
	d.AddParagraph().AddLink("a", "b")
}

// the library looks at local names only
const shortHead = `<w:document><w:body>`

// c14Package is a package around a body.
func c14Package(xml string) []byte {
	return mkZip(part{relsPart, relsXML(`<Relationship Id="v1" Target="media/a.png"/><Relationship Id="v2"/>`)}, part{"word/document.xml", shortHead + xml + docTail}, part{mediaDir + "a.png", "A"})
}

// C14_place: every element at every place, next to nothing else.
func C14_place() {
	path := c14Paths[pickN("path", len(c14Paths))]
	name := c14Names[pickN("name", len(c14Names))]
	pkg := c14Package(chain(path+"/"+name, ""))
	d, err := parse(pkg)
	if err != nil {
		sym.Reach("error")
		return
	}
	if !sym.Thorough() && name != c14Names[0] {
		// what is not read is the same everywhere
		twin, err := parse(c14Package(chain(path, "")))
		if err == nil && sameXML(d, twin) {
			return
		}
	}
	exercise(pkg, pickN("part", 4))
}

// sameXML: the documents are written the same.
func sameXML(a, b *docx.Docx) bool {
	x, err := xml.Marshal(a.Document)
	if err != nil {
		return false
	}
	y, err := xml.Marshal(b.Document)
	return err == nil && bytes.Equal(x, y)
}

// C14_missing: reference documents that lack something, have it empty or
// twice.
func C14_missing() {
	k := pickN("elem", len(c14Elems))
	e := c14Elems[k]
	xml := goldenXML[e.kind]
	switch pickN("how", 3) {
	case 0: // lacks the element
		xml = xml[:e.open] + xml[e.end:]
	case 1: // is empty
		sym.Assume(e.inner < e.outer || len(e.attrs) > 0)
		xml = xml[:e.open] + "<" + e.name + "/>" + xml[e.end:]
	case 2: // twice, once empty
		xml = xml[:e.end] + "<" + e.name + "/>" + xml[e.end:]
	}
	exercise(c14Package(xml), pickN("part", 4))
}

// C14_attr: every attribute with any short value, next to nothing else.
func C14_attr() {
	at := c14Attrs[pickN("attr", len(c14Attrs))]
	path, attr, _ := strings.Cut(at, "|")
	i := strings.LastIndexByte(path, '/')
	n := 2
	if sym.Thorough() {
		n = 3
	}
	v := sym.Str("value", 0, n)
	for j := 0; j < len(v); j++ {
		sym.Assume(v[j] >= ' ' && v[j] < 127 && v[j] != '<' && v[j] != '&' && v[j] != '"')
	}
	name := path[i+1:]
	exercise(c14Package(chain(path[:i], "<"+name+" "+attr+`="`+v+`"/>`)), 0)
}

// C14_pair: two elements of the same name or of two names in one place.
func C14_pair() {
	paths := []string{"/w:p", "/w:p/w:r", "/w:p/w:hyperlink", "/w:tbl", "/w:tbl/w:tr", "/w:tbl/w:tr/w:tc", "/w:p/w:r/w:drawing", ""}
	path := paths[pickN("path", len(paths))]
	kids := []string{"w:p", "w:r", "w:hyperlink", "w:tbl", "w:tr", "w:tc", "w:drawing", "w:t", "w:tab", "w:br", "w:pPr", "w:rPr", "w:sectPr", "wp:inline", "wp:anchor", "w:instrText"}
	a, b := kids[pickN("a", len(kids))], kids[pickN("b", len(kids))]
	xml := "<" + a + "/><" + b + "/>"
	if sym.Bool("text") {
		xml = "<" + a + "><w:r><w:t>x</w:t></w:r></" + a + "><" + b + "><w:t>y</w:t></" + b + ">"
	}
	exercise(c14Package(chain(path, xml)), pickN("part", 4))
}

// C14_text: any short text where markup may be.
func C14_text() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	s := sym.Str("s", 0, n)
	switch pickN("where", 3) {
	case 0:
		s = shortHead + `<w:p><w:r><w:t>` + s + `</w:t></w:r></w:p>` + docTail
	case 1:
		s = shortHead + `<w:p` + s + `/>` + docTail
	case 2: // is the whole part
	}
	exercise(mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", s}), 0)
}

// C14_package: packages that lack parts or have unusual ones.
func C14_package() {
	var ps []part
	doc := part{"word/document.xml", shortHead + mediaItems[0] + docTail}
	for i := 0; i < 2; i++ {
		n := 10
		if i > 0 {
			n = 9
		}
		switch pickN("part", n) {
		case 0:
			ps = append(ps, doc)
		case 1:
			ps = append(ps, part{relsPart, relsXML(`<Relationship Id="%E" Target="media/"/>`)})
		case 2:
			ps = append(ps, part{mediaDir, ""})
		case 3:
			ps = append(ps, part{mediaDir + "noext", "x"})
		case 4:
			ps = append(ps, part{"word/", ""})
		case 9:
			n := sym.Str("name", 0, 2)
			if strings.HasSuffix(n, "/") {
				ps = append(ps, part{n, ""})
			} else {
				ps = append(ps, part{n, "x"})
			}
		case 6:
			ps = append(ps, part{"word/document.xml", ""})
		case 7:
			ps = append(ps, part{relsPart, ""})
		case 8:
			ps = append(ps, part{"word/document.xml", "<a/>"})
		case 5:
			ps = append(ps, part{relsPart, "<a/>"})
		}
	}
	exercise(mkZip(ps...), pickN("ops", 4))
}

// C14_rels: links and pictures with relationships that are unusual.
func C14_rels() {
	id := sym.Choice("id", "", "rId", "rId1", "%", "rId99999999999999999999")
	target := sym.Choice("target", "", "media/", "media/a.png", "/word/media/a.png", "media/none.png", "/", "a", "media/a", "../media/a.png", "http://x")
	attrs := ""
	if sym.Bool("has id") {
		attrs += ` Id="` + id + `"`
	}
	if sym.Bool("has target") {
		attrs += ` Target="` + target + `"`
	}
	k := pickN("item", len(mediaItems))
	xml := strings.ReplaceAll(strings.ReplaceAll(mediaItems[k], "%L", id), "%E", id)
	pkg := mkZip(part{relsPart, relsXML(`<Relationship` + attrs + `/>`)}, part{"word/document.xml", shortHead + xml + docTail}, part{mediaDir + "a.png", "A"}, part{mediaDir + "a", "A"})
	exercise(pkg, pickN("part", 4))
}
