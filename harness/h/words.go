package h

import (
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C01_words"] = C01_words
	All["C06_words"] = C06_words
	All["C09_words"] = C09_words
	All["C10_words"] = C10_words
	All["C19_words"] = C19_words
	All["C20_words"] = C20_words
	All["C21_words"] = C21_words
}

// longWord is a word of 1 to 12 characters, in thorough 24.
func longWord(name string) string {
	n := 12
	if sym.Thorough() {
		n = 24
	}
	return symWord(name, pickN(name+" length", n)+1)
}

// anyArg is any short text or a word.
func anyArg(name string) string {
	if sym.Bool(name + " is a word") {
		return longWord(name)
	}
	return symText(name, 0, 2)
}

// twoArgs are two short texts, or one of them is a word.
func twoArgs() (string, string) {
	switch pickN("words", 3) {
	case 1:
		return longWord("a"), "b"
	case 2:
		return "a", longWord("b")
	}
	return symText("a", 0, 1), symText("b", 0, 1)
}

// wordsDoc is a package in which, if vary, one text, style, target, id or name
// is any word, and the plain texts of its three items.
func wordsDoc(vary bool) (b []byte, texts []string) {
	text, target, link, embed, media, style, cell := "text", "http://t", "rIdL", "rIdE", "m.png", "s", "cell"
	which := -1
	if vary {
		which = pickN("which", 7)
	}
	switch which {
	case 0:
		text = longWord("text")
	case 1:
		target = longWord("target")
	case 2:
		link = longWord("link")
		sym.Assume(link != embed)
	case 3:
		embed = longWord("embed")
		sym.Assume(embed != link)
	case 4:
		media = partWord()
	case 5:
		style = longWord("style")
	case 6:
		cell = longWord("cell")
	}
	xml := `<w:p><w:pPr><w:pStyle w:val="` + style + `"/></w:pPr><w:r><w:t>` + text + `</w:t></w:r></w:p>` +
		`<w:tbl><w:tr><w:tc><w:p><w:r><w:t>` + cell + `</w:t></w:r></w:p></w:tc></w:tr></w:tbl>` +
		`<w:p><w:hyperlink r:id="` + link + `"><w:r><w:instrText>l</w:instrText></w:r></w:hyperlink><w:r><w:drawing><wp:inline>` +
		strings.ReplaceAll(picGraphic, "%E", embed) + `</wp:inline></w:drawing></w:r></w:p>`
	rels := `<Relationship Id="` + link + `" Type="` + docx.REL_HYPERLINK + `" Target="` + target + `" TargetMode="External"/>` +
		`<Relationship Id="` + embed + `" Type="` + docx.REL_IMAGE + `" Target="media/` + media + `"/>`
	b = mkZip(part{relsPart, relsXML(rels)}, part{"word/document.xml", docHead + xml + docTail}, part{mediaDir + media, "data"})
	return b, []string{style + "|" + text, "|  :----: |\n| " + cell + " |", "|[l](" + target + ")" + hash("data")}
}

// plain gives the style, text, link targets and hashes of pictures of items.
func plain(items []interface{}) (texts []string) {
	for _, it := range items {
		switch o := it.(type) {
		case *docx.Paragraph:
			s := ""
			if o.Properties != nil && o.Properties.Style != nil {
				s = o.Properties.Style.Val
			}
			s += "|"
			for _, c := range o.Children {
				one := (&docx.Paragraph{Children: []interface{}{c}})
				if _, ok := c.(*docx.Hyperlink); ok {
					one = o
				}
				t := one.String()
				if r, ok := c.(*docx.Run); ok && len(r.Children) == 1 {
					if _, ok := r.Children[0].(*docx.Drawing); ok {
						t = t[strings.LastIndex(t, "](")+2 : len(t)-1]
					}
				} else if one == o {
					t = t[:strings.Index(t, ")")+1]
				}
				s += t
			}
			texts = append(texts, s)
		case *docx.Table:
			texts = append(texts, o.String())
		default:
			texts = append(texts, "?")
		}
	}
	return
}

func sameTexts(items []interface{}, want []string) {
	got := plain(items)
	sym.Assert(len(got) == len(want), "number of items")
	for i := range want {
		sym.Assert(got[i] == want[i], "text, style, targets and bytes of an item")
	}
}

// C01_words: any longer word is text like any other.
func C01_words() {
	w := longWord("text")
	for _, s := range []string{w, w + "\t" + w, " " + w + "\n"} {
		d := docx.New()
		p := d.AddParagraph()
		if sym.Bool("cell") {
			p = d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph()
		}
		p.AddText(s)
		p.AddText(w)
		sym.Assert(p.String() == s+w, "text of a paragraph")
		switch o := Reopen(d).Document.Body.Items; len(o) {
		case 1:
			p = o[0].(*docx.Paragraph)
		case 2:
			p = o[1].(*docx.Table).TableRows[0].TableCells[0].Paragraphs[0]
		}
		sym.Assert(p.String() == s+w, "text of a paragraph after save and open")
	}
	sym.Reach("word")
}

// C06_words: links to any longer word, in a document whose relationships have
// one.
func C06_words() {
	vary := sym.Bool("vary")
	b, _ := wordsDoc(vary)
	d := Open(b)
	before := relsOf(d)
	w := "new"
	if !vary {
		w = longWord("new")
	}
	l := d.AddParagraph().AddLink("x", w)
	m := d.AddParagraph().AddLink("x", w+"/")
	k := d.AddParagraph().AddLink("x", "http://"+w)
	for i := 0; i < 2; i++ {
		rs := relsOf(d)
		sym.Assert(len(rs) == len(before)+3, "number of relationships")
		for i, r := range before {
			sym.Assert(rs[i].ID == r.ID && rs[i].Type == r.Type && rs[i].Target == r.Target && rs[i].TargetMode == r.TargetMode, "an existing relationship changes")
		}
		for i, x := range []struct{ id, target string }{{l.ID, w}, {m.ID, w + "/"}, {k.ID, "http://" + w}} {
			r := rs[len(before)+i]
			sym.Assert(r.ID == x.id && r.Target == x.target && r.TargetMode == "External" && r.Type == docx.REL_HYPERLINK, "relationship of a link")
			t, err := d.ReferTarget(x.id)
			sym.Assert(err == nil && t == x.target, "target of a link")
			for j := range rs {
				sym.Assert(j == len(before)+i || rs[j].ID != x.id, "an id is given twice")
			}
		}
		d = Reopen(d)
	}
	sym.Reach("word")
}

// C09_words: appending a document with any longer word in it.
func C09_words() {
	b, want := wordsDoc(true)
	d, src := receiver(), Open(b)
	n := len(d.Document.Body.Items)
	own := plain(d.Document.Body.Items)
	d.AppendFile(src)
	sameTexts(src.Document.Body.Items, want)
	for i := 0; i < 2; i++ {
		sameTexts(d.Document.Body.Items[:n], own)
		sameTexts(d.Document.Body.Items[n:], want)
		d = Reopen(d)
	}
	sym.Reach("word")
}

// C10_words: splitting a document with any longer word in it.
func C10_words() {
	b, want := wordsDoc(true)
	ds := Open(b).SplitByParagraph(func(p *docx.Paragraph) bool { return true })
	sym.Assert(len(ds) == 2, "number of parts")
	sameTexts(ds[0].Document.Body.Items, want[:2])
	sameTexts(ds[1].Document.Body.Items, want[2:])
	sameTexts(Reopen(ds[0]).Document.Body.Items, want[:2])
	sameTexts(Reopen(ds[1]).Document.Body.Items, want[2:])
	sym.Reach("word")
}

// C19_words: a document of items with any longer word and media of any longer
// name.
func C19_words() {
	vary := sym.Bool("vary")
	b, want := wordsDoc(vary)
	src := Open(b)
	items := src.Document.Body.Items[:2]
	med := []docx.Media{{Name: "m.png", Data: []byte("m")}}
	if !vary {
		med[0].Name = partWord()
	}
	d := docx.LoadBodyItems(items, med)
	for i := 0; i < 2; i++ {
		sym.Assert(len(d.Document.Body.Items) == 2, "number of items")
		sameTexts(d.Document.Body.Items, want[:2])
		hasMedia(d, med, 1)
		d = Reopen(d)
	}
	sym.Reach("word")
}

// C20_words: saving a document with any longer word in it.
func C20_words() {
	b, want := wordsDoc(true)
	d := Open(b)
	first := Save(d)
	sameTexts(d.Document.Body.Items, want)
	sym.Assert(samePackage(Save(d), first), "two saves differ")
	again := Open(first)
	sameTexts(again.Document.Body.Items, want)
	sym.Assert(samePackage(Save(again), first), "saving an opened document gives other contents")
	sameRels(d, Open(b))
	sym.Reach("word")
}

// C21_words: the plain text of a document with any longer word in it.
func C21_words() {
	b, want := wordsDoc(true)
	d := Open(b)
	sameTexts(d.Document.Body.Items, want)
	sameTexts(Reopen(d).Document.Body.Items, want)
	sym.Reach("word")
}
