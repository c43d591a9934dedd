package h

import (
	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C01_build"] = C01_build
	All["C01_reopen"] = C01_reopen
	All["C01_pieces"] = C01_pieces
	All["C01_cell"] = C01_cell
	All["C01_foreign"] = C01_foreign
}

// C01_build: in memory any bytes come back, also from several texts.
func C01_build() {
	d := docx.New()
	p := d.AddParagraph()
	n := 4
	if sym.Thorough() {
		n = 5
	}
	s := sym.Str("s", 0, n)
	p.AddText(s)
	sym.Assert(p.String() == s, "text of a built paragraph differs")
	sym.Reach("built")
}

// C01_reopen: any valid text of the body comes back from the saved package.
func C01_reopen() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	s := sym.Str("s", 0, n)
	AssumeText(s)
	d := docx.New()
	d.AddParagraph().AddText(s)
	d2 := Reopen(d)
	ps := paras(d2)
	sym.Assert(len(ps) == 1, "number of paragraphs")
	sym.Assert(ps[0].String() == s, "text of a reopened paragraph differs")
	sym.Reach("reopened")
}

// C01_pieces: several texts of several paragraphs stay in their order.
func C01_pieces() {
	d := docx.New()
	np := sym.Concrete(sym.Int("paras", 1, 2))
	var want []string
	for i := 0; i < np; i++ {
		p := d.AddParagraph()
		w := ""
		k := 1
		if i == 0 {
			k = sym.Concrete(sym.Int("texts", 0, 2))
		}
		for j := 0; j < k; j++ {
			if i == 0 && sym.Bool("tabrun") {
				p.AddTab()
				w += "\t"
			}
			s := sym.Choice("more", "", " x ", "\ty\n", "é<&>\"'")
			if i == 0 && j == 0 {
				s = symText("s", 0, 1) + s
			}
			r := p.AddText(s)
			w += s
			if i == 0 && sym.Bool("runtab") {
				sym.Assert(r.AddTab() == r, "AddTab returns its run")
				w += "\t"
			}
		}
		want = append(want, w)
		sym.Assert(p.String() == w, "text of a built paragraph differs")
	}
	ps := paras(Reopen(d))
	sym.Assert(len(ps) == np, "number of paragraphs")
	for i := range ps {
		sym.Assert(ps[i].String() == want[i], "text of a reopened paragraph differs")
	}
	sym.Reach("pieces")
}

// C01_cell: text of table cells.
func C01_cell() {
	d := docx.New()
	t := d.AddTable(1, 2, 0, nil)
	a, b := symText("a", 0, 2), symText("b", 0, 1)
	c := t.TableRows[0].TableCells
	c[0].AddParagraph().AddText(a)
	p := c[1].AddParagraph()
	p.AddText(b)
	p.AddText("-" + b)
	c[1].AddParagraph().AddText(a + " ")
	check := func(t *docx.Table) {
		c := t.TableRows[0].TableCells
		sym.Assert(len(c) == 2 && len(c[0].Paragraphs) == 1 && len(c[1].Paragraphs) == 2, "number of cell paragraphs")
		sym.Assert(c[0].Paragraphs[0].String() == a, "text of a cell differs")
		sym.Assert(c[1].Paragraphs[0].String() == b+"-"+b, "text of a cell differs")
		sym.Assert(c[1].Paragraphs[1].String() == a+" ", "text of a cell differs")
	}
	check(t)
	items := Reopen(d).Document.Body.Items
	sym.Assert(len(items) == 1, "number of body items")
	check(items[0].(*docx.Table))
	sym.Reach("cell")
}

// C01_foreign: every way XML has to write a character is read as it.
func C01_foreign() {
	n := sym.Concrete(sym.Int("n", 0, 3))
	src, want := "", ""
	for i := 0; i < n; i++ {
		switch sym.Pick("form", 7) {
		case 0:
			c := sym.Byte("c")
			sym.Assume(c >= 0x20 && c < 0x7f && c != '<' && c != '&' && c != '>')
			src += string([]byte{c})
			want += string([]byte{c})
		case 1:
			src += "&lt;&gt;&amp;&apos;&quot;"
			want += "<>&'\""
		case 2:
			src += "&#65;&#x4e2d;&#9;"
			want += "A中\t"
		case 3:
			c := sym.Byte("c")
			sym.Assume(c >= 0x20 && c < 0x7f && c != ']')
			src += "<![CDATA[" + string([]byte{c}) + "<&]]>"
			want += string([]byte{c}) + "<&"
		case 4:
			src += "<!-- c -->"
		case 5:
			src += "<?pi x?>"
		case 6:
			src += " é\n"
			want += " é\n"
		}
	}
	sp := ""
	if sym.Bool("preserve") {
		sp = ` xml:space="preserve"`
	}
	d := Open(bodyXML(`<w:p><w:r><w:t` + sp + `>` + src + `</w:t></w:r></w:p>`))
	ps := paras(d)
	sym.Assert(len(ps) == 1, "number of paragraphs")
	sym.Assert(ps[0].String() == want, "text of a document of another program differs")
	sym.Assert(paras(Reopen(d))[0].String() == want, "text differs after saving it again")
	sym.Reach("foreign")
}
