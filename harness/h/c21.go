package h

import (
	"crypto/md5"
	"encoding/hex"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C21_built"] = C21_built
	All["C21_opened"] = C21_opened
	All["C21_table"] = C21_table
	All["C21_cells"] = C21_cells
	All["C21_drawings"] = C21_drawings
}

func hash(data string) string {
	h := md5.Sum([]byte(data))
	return hex.EncodeToString(h[:])
}

// C21_built: paragraphs built from any sequence of pieces.
func C21_built() {
	d := docx.New()
	p := d.AddParagraph()
	want := ""
	n := 3
	if sym.Thorough() {
		n = 4
	}
	pics := 0
	for i := 0; i < n; i++ {
		switch pickN("piece", 6) {
		case 0:
			s := "z"
			if i == 0 {
				s = symText("s", 0, 2)
			}
			p.AddText(s)
			want += s
		case 1:
			p.AddTab()
			want += "\t"
		case 2:
			p.AddPageBreaks()
			want += "\n"
		case 3:
			s, t := "l", "http://"+string(rune('a'+i))
			if i == 1 {
				s = symText("link", 0, 1)
			}
			p.AddLink(s, t)
			want += "[" + s + "](" + t + ")"
		case 4:
			data := png(2, 3, byte(i))
			r, err := p.AddInlineDrawing(data)
			if err != nil {
				panic(err)
			}
			want += "![inlnim " + runDrawing(r).Inline.DocPr.Name + "](" + hash(string(data)) + ")"
			pics++
		case 5:
			data := gif(2, 3, byte(i))
			r, err := p.AddAnchorDrawing(data)
			if err != nil {
				panic(err)
			}
			want += "![anchim " + runDrawing(r).Anchor.DocPr.Name + "](" + hash(string(data)) + ")"
			pics++
		}
	}
	before := Save(d)
	sym.Assert(p.String() == want, "plain text")
	sym.Assert(p.String() == want, "plain text, once more")
	sym.Assert(samePackage(Save(d), before), "rendering changes the document")
	got := Open(before)
	sym.Assert(got.Document.Body.Items[0].(*docx.Paragraph).String() == want, "plain text after save and open")
	sym.Reach("built")
}

const c21Rels = `<Relationship Id="l1" Type="h" Target="http://one" TargetMode="External"/><Relationship Id="l2" Type="h" Target="http://two" TargetMode="External"/><Relationship Id="p1" Type="i" Target="media/a.png"/><Relationship Id="p2" Type="i" Target="/word/media/b.png"/>`

// c21Piece is a piece of a paragraph and its plain text; runs says whether it
// is made of elements of a run.
func c21Piece(a, b string) (xml, want string, inRun bool) {
	switch pickN("piece", 11) {
	case 0:
		s := sym.Str("s", 0, 2)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= 'a' && s[i] <= 'z')
		}
		return `<w:t>` + s + `</w:t>`, s, true
	case 1:
		return `<w:t xml:space="preserve"> x&amp; </w:t>`, " x& ", true
	case 2:
		return `<w:tab/>`, "\t", true
	case 3:
		return `<w:br/>`, "\n", true
	case 4:
		return `<w:br w:type="page"/>`, "\n", true
	case 5:
		return `<w:hyperlink r:id="l1"><w:r><w:t>a</w:t><w:tab/></w:r><w:r><w:rPr><w:b/></w:rPr><w:t>b</w:t></w:r></w:hyperlink>`, "[a\tb](http://one)", false
	case 6:
		return `<w:hyperlink r:id="l2"><w:r><w:instrText>code</w:instrText></w:r></w:hyperlink>`, "[code](http://two)", false
	case 7:
		return `<w:hyperlink w:anchor="mark"><w:r><w:t>m</w:t></w:r></w:hyperlink>`, "[m](mark)", false
	case 8:
		return `<w:drawing><wp:inline><wp:docPr id="1" name="n1"/><a:graphic><a:graphicData uri="u"><pic:pic><pic:nvPicPr><pic:cNvPr id="1" name="other"/></pic:nvPicPr><pic:blipFill><a:blip r:embed="p1"/></pic:blipFill></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing>`, "![inlnim n1](" + hash(a) + ")", true
	case 9:
		return `<w:drawing><wp:anchor><wp:docPr id="2" name="n2"/><a:graphic><a:graphicData uri="u"><pic:pic><pic:blipFill><a:blip r:embed="p2"/></pic:blipFill></pic:pic></a:graphicData></a:graphic></wp:anchor></w:drawing>`, "![anchim n2](" + hash(b) + ")", true
	}
	return `<w:drawing><wp:inline><a:graphic><a:graphicData uri="u"><pic:pic><pic:nvPicPr><pic:cNvPr id="1" name="own"/></pic:nvPicPr><pic:blipFill><a:blip r:embed="p2"/></pic:blipFill></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing>`, "![inlnim own](" + hash(b) + ")", true
}

// C21_opened: paragraphs of other programs, pieces in one run or several.
func C21_opened() {
	a, b := sym.Str("a", 0, 1), sym.Str("b", 0, 1)+"b"
	n := 2
	if sym.Thorough() {
		n = 3
	}
	xml, want, open := "", "", false
	for i := 0; i < n; i++ {
		x, w, inRun := c21Piece(a, b)
		want += w
		if open && (!inRun || sym.Bool("new run")) {
			xml += `</w:r>`
			open = false
		}
		if inRun && !open {
			xml += `<w:r><w:rPr><w:b/></w:rPr>`
			open = true
		}
		xml += x
	}
	if open {
		xml += `</w:r>`
	}
	pkg := mkZip(part{relsPart, relsXML(c21Rels)}, part{"word/document.xml", docHead + `<w:p><w:pPr><w:jc w:val="left"/></w:pPr>` + xml + `</w:p>` + docTail},
		part{mediaDir + "a.png", a}, part{mediaDir + "b.png", b})
	d, twin := Open(pkg), Open(pkg)
	sym.Assert(d.Document.Body.Items[0].(*docx.Paragraph).String() == want, "plain text")
	sameItems(d.Document.Body.Items, twin.Document.Body.Items)
	sym.Assert(samePackage(Save(d), Save(twin)), "rendering changes the document")
	sym.Reach("opened")
}

// C21_table: tables of any shape.
func C21_table() {
	rows := pickN("rows", 4)
	xml, want := "", ""
	for i := 0; i < rows; i++ {
		cols := pickN("cols", 3)
		if i == 0 {
			if cols == 0 {
				rows = 0
				break
			}
			want = "| "
			for j := 0; j < cols; j++ {
				want += " :----: |"
			}
		}
		xml += `<w:tr>`
		want += "\n|"
		for j := 0; j < cols; j++ {
			s := string(rune('a' + 4*i + j))
			switch pickN("cell", 4) {
			case 0:
				xml += `<w:tc/>`
				want += "        |"
			case 1:
				xml += `<w:tc><w:p/></w:tc>`
				want += "        |"
			case 2:
				xml += `<w:tc><w:p><w:r><w:t>` + s + `</w:t></w:r></w:p></w:tc>`
				want += " " + s + " |"
			case 3:
				xml += `<w:tc><w:tcPr><w:gridSpan w:val="2"/></w:tcPr><w:p><w:r><w:t>` + s + `</w:t></w:r></w:p><w:p/><w:p><w:r><w:t>x</w:t></w:r></w:p></w:tc>`
				want += " " + s + " x |"
			}
		}
		xml += `</w:tr>`
	}
	if rows == 0 {
		want = ""
	}
	pkg := bodyXML(`<w:tbl>` + xml + `</w:tbl>`)
	d, twin := Open(pkg), Open(pkg)
	sym.Assert(d.Document.Body.Items[0].(*docx.Table).String() == want, "plain text of a table")
	sameItems(d.Document.Body.Items, twin.Document.Body.Items)
	sym.Reach("table")
}

// C21_cells: what the cells of a table can hold.
func C21_cells() {
	d := docx.New()
	t := d.AddTable(2, 2, 0, nil)
	at := pickN("at", 4)
	p := t.TableRows[at/2].TableCells[at%2].AddParagraph()
	w := ""
	n := 2
	for i := 0; i < n; i++ {
		switch pickN("piece", 4) {
		case 0:
			s := "z"
			if i == 0 {
				s = symText("s", 1, 1)
			}
			p.AddText(s)
			w += s
		case 1:
			p.AddLink("l", "t")
			w += "[l](t)"
		case 2:
			r, err := p.AddInlineDrawing(png(2, 3, byte(i)))
			if err != nil {
				panic(err)
			}
			w += "![inlnim " + runDrawing(r).Inline.DocPr.Name + "](" + hash(string(png(2, 3, byte(i)))) + ")"
		case 3:
			p = t.TableRows[at/2].TableCells[at%2].AddParagraph()
			p.AddTab()
			w += " \t"
			if i == 0 {
				w = "\t"
			}
		}
	}
	want := "|  :----: | :----: |"
	for i := 0; i < 4; i++ {
		if i%2 == 0 {
			want += "\n|"
		}
		if i == at {
			want += " " + w + " |"
		} else {
			want += "        |"
		}
	}
	sym.Assert(t.String() == want, "plain text of a table")
	sym.Assert(Reopen(d).Document.Body.Items[0].(*docx.Table).String() == want, "plain text of a table after save and open")
	sym.Reach("cells")
}

// C21_drawings: drawings of every kind, with a name of the drawing or, if that
// is missing, one of the content.
func C21_drawings() {
	place, abbr := "wp:inline", "inln"
	if sym.Bool("anchor") {
		place, abbr = "wp:anchor", "anch"
	}
	name := sym.Str("name", 1, 2)
	own := "own"
	if sym.Bool("own symbolic") {
		name, own = "n", name
	}
	word := func(s string) {
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] == ' ')
		}
	}
	word(name)
	word(own)
	data := "d"
	docPr, hasOwn := sym.Bool("docPr"), sym.Bool("own name")
	inner, want := "", ""
	switch pickN("content", 4) {
	case 0:
		data = sym.Str("data", 0, 2)
		inner = `<pic:pic>`
		if hasOwn {
			inner += `<pic:nvPicPr><pic:cNvPr id="1" name="` + own + `"/></pic:nvPicPr>`
		} else {
			own = "l1"
		}
		inner += `<pic:blipFill><a:blip r:embed="l1"/></pic:blipFill></pic:pic>`
		want = "im %](" + hash(data) + ")"
	case 1:
		inner = `<wps:wsp>`
		if hasOwn {
			inner += `<wps:cNvPr id="1" name="` + own + `"/>`
		} else {
			own = "rect"
		}
		inner += `<wps:spPr><a:prstGeom prst="rect"/></wps:spPr></wps:wsp>`
		want = "sp %](rect)"
	case 2:
		inner = `<wpc:wpc/>`
		own = "nil"
		want = "cv %]()"
	case 3:
		inner = `<wps:wsp/>`
		own = "nil"
		want = "sp %]()"
	}
	xml := ""
	if docPr {
		xml = `<wp:docPr id="1" name="` + name + `"/>`
		own = name
	}
	k := 0
	for want[k] != '%' {
		k++
	}
	want = "b![" + abbr + want[:k] + own + want[k+1:] + "a"
	xml = `<w:p><w:r><w:t>b</w:t><w:drawing><` + place + `>` + xml + `<a:graphic><a:graphicData uri="u">` + inner + `</a:graphicData></a:graphic></` + place + `></w:drawing></w:r><w:r><w:t>a</w:t></w:r></w:p>`
	d := Open(mkZip(part{relsPart, relsXML(`<Relationship Id="l1" Type="i" Target="media/m.png"/>`)},
		part{"word/document.xml", docHead + xml + docTail}, part{mediaDir + "m.png", data}))
	sym.Assert(paras(d)[0].String() == want, "plain text of a drawing")
	sym.Assert(paras(Reopen(d))[0].String() == want, "plain text of a drawing after save and open")
	sym.Reach("drawing")
}
