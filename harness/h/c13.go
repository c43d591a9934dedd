package h

import (
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C13_opened"] = C13_opened
	All["C13_name"] = C13_name
	All["C13_words"] = C13_words
	All["C13_template"] = C13_template
	All["C13_default"] = C13_default
	All["C13_split"] = C13_split
}

// otherNames are parts that the library does not model, many of them with
// names close to those it does.
var otherNames = []string{
	"[Content_Types].xml", "_rels/.rels", "docProps/app.xml", "word/styles.xml", "word/theme/theme1.xml",
	"word/_rels/header1.xml.rels", "word/_rels/document.xml.rels.bak", "word/document.xml2", "word/document2.xml",
	"document.xml", "x/word/document.xml", "WORD/DOCUMENT.XML", "x/word/media/i.png", "word/mediax", "media/i.png",
	"word/embeddings/a.bin", "customXml/item 1.xml", "ü.xml",
}

// written asserts that the package has exactly the parts, each once and byte
// for byte, and a document and relationships.
func written(got []part, want []part) {
	sym.Assert(len(got) == len(want)+2, "number of entries")
	for _, w := range append([]part{{name: relsPart}, {name: "word/document.xml"}}, want...) {
		n := 0
		for _, g := range got {
			if g.name == w.name {
				n++
				if w.name != relsPart && w.name != "word/document.xml" {
					sym.Assert(g.data == w.data, "bytes of a part")
				}
			}
		}
		sym.Assert(n == 1, "a part is not there exactly once")
	}
}

// C13_opened: the other parts of an opened package, in any place of it.
func C13_opened() {
	n := pickN("name", len(otherNames))
	more := pickN("more", 3)
	want := []part{{otherNames[n], sym.Str("data", 0, 2)}}
	for i := 0; i < more; i++ {
		k := (n + 1 + i*7) % len(otherNames)
		want = append(want, part{otherNames[k], "more"})
	}
	if sym.Bool("media") {
		want = append(want, part{mediaDir + "image1.png", sym.Str("media.data", 0, 1)})
	}
	all := append([]part{{relsPart, relsXML("")}, {"word/document.xml", docHead + mediaItems[6] + docTail}}, want...)
	// the order of a package is free
	rot := pickN("order", 2) * (2 + pickN("from", len(want)))
	all = append(append([]part{}, all[rot:]...), all[:rot]...)
	if sym.Bool("dirs") {
		all = append([]part{{"word/", ""}, {"customXml/", ""}}, all...)
	}
	d := Open(mkZip(all...))
	if sym.Bool("edited") {
		d.AddParagraph().AddLink("a", "b")
	}
	for i := 0; i < 2; i++ {
		b := Save(d)
		written(unzip(b), want)
		d = Open(b)
	}
	sym.Reach("opened")
}

// C13_name: any name of one part.
func C13_name() {
	pre := sym.Choice("pre", "", "word/", "word/media", "word/_rels/", "word/document.xml", "[", "a/b/")
	suf := sym.Choice("suf", "", ".xml", "/x", "document.xml")
	s := sym.Str("name", 1, 2)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] > ' ' && s[i] < 0x7f && s[i] != '/' && s[i] != '\\' && s[i] != '.' && s[i] != ':')
	}
	name := pre + s + suf
	data := sym.Str("data", 0, 1)
	all := []part{{relsPart, relsXML("")}, {"word/document.xml", docHead + docTail}}
	want := []part{{name, data}}
	d := Open(mkZip(append(all, want...)...))
	written(unzip(Save(d)), want)
	sym.Reach("name")
}

// partWord is a word that is the name of a file.
func partWord() string {
	n := 12
	if sym.Thorough() {
		n = 20
	}
	s := symWord("word", pickN("length", n)+1)
	sym.Assume(s[0] != '.')
	return s
}

// C13_words: a part with any longer name, in any folder, or of a template.
func C13_words() {
	name := sym.Choice("pre", "", "word/", "a/b/", "word/embeddings/", "word/media") + partWord()
	sym.Assume(name != "word/document.xml") // not another part
	want := []part{{name, "data"}}
	var d *docx.Docx
	switch pickN("how", 3) {
	case 0:
		d = Open(mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", docHead + docTail}, want[0]))
	case 1:
		d = docx.New().UseTemplate("", []string{name}, memFS{name: "data"})
	case 2:
		d = docx.New().UseTemplate("t", []string{name}, memFS{"xml/t/" + name: "data"})
	}
	b := Save(d)
	written(unzip(b), want)
	written(unzip(Save(Open(b))), want)
	sym.Reach("word")
}

// C13_template: the files of a template, for a new or an opened document.
func C13_template() {
	names := []string{"a.xml", "word/b/c.bin", "[Content_Types].xml", "word/media2", "word/media/image1.png", "word/_rels/x"}
	n := pickN("files", len(names)+1)
	tmpl, pre := "", ""
	if sym.Bool("named") {
		tmpl = "tpl"
		pre = "xml/tpl/"
	}
	m := memFS{}
	var want []part
	var list []string
	for _, x := range names[:n] {
		s := sym.Str("data", 0, 1)
		m[pre+x] = s
		list = append(list, x)
		want = append(want, part{x, s})
	}
	m[pre+"unlisted"] = "x"
	if pre != "" {
		m["a.xml"] = "wrong"
	} else {
		m["xml/a.xml"] = "wrong"
	}
	var d *docx.Docx
	if sym.Bool("opened") {
		d = Open(mkZip(part{relsPart, relsXML("")}, part{"old", "old"}, part{"word/document.xml", docHead + docTail}))
	} else {
		d = docx.New()
	}
	d.UseTemplate(tmpl, list, m)
	if sym.Bool("picture") {
		data := png(3, 4, 5)
		if _, err := d.AddParagraph().AddInlineDrawing(data); err != nil {
			panic(err)
		}
		r := relsOf(d)
		want = append(want, part{"word/" + r[len(r)-1].Target, string(data)})
	}
	for i := 0; i < 2; i++ {
		b := Save(d)
		written(unzip(b), want)
		if sym.Bool("again") {
			d = Open(b)
		}
	}
	sym.Reach("template")
}

// C13_default: the template that comes with the library.
func C13_default() {
	d := docx.New().WithDefaultTheme()
	switch sym.Pick("page", 3) {
	case 1:
		d.WithA4Page()
	case 2:
		d.WithA3Page()
	}
	d.AddParagraph().AddText(symText("s", 0, 1))
	var want []part
	for _, n := range docx.DefaultTemplateFilesList {
		b, err := docx.TemplateXMLFS.ReadFile("xml/default/" + n)
		sym.Assert(err == nil, "a listed file of the default template is missing")
		sym.Assert(len(b) > 0, "a file of the default template is empty")
		want = append(want, part{n, string(b)})
	}
	for _, n := range []string{"_rels/.rels", "docProps/app.xml", "docProps/core.xml", "word/theme/theme1.xml", "word/fontTable.xml", "word/styles.xml", "[Content_Types].xml"} {
		has := false
		for _, w := range want {
			has = has || w.name == n
		}
		sym.Assert(has, "the default template lacks a file")
	}
	for i := 0; i < 2; i++ {
		b := Save(d)
		written(unzip(b), want)
		d = Open(b)
	}
	sym.Reach("default")
}

// C13_split: the documents of a split have the parts of the original.
func C13_split() {
	want := []part{{"word/styles.xml", sym.Str("data", 0, 1)}, {otherNames[pickN("name", len(otherNames))], sym.Str("data", 0, 1)}}
	sym.Assume(want[1].name != want[0].name)
	body := `<w:p><w:r><w:t>a</w:t></w:r></w:p><w:p><w:r><w:t>b</w:t></w:r></w:p>`
	var d *docx.Docx
	if sym.Bool("template") {
		m := memFS{}
		var list []string
		for _, w := range want {
			m["xml/t/"+w.name] = w.data
			list = append(list, w.name)
		}
		d = docx.New().UseTemplate("t", list, m)
		d.AddParagraph().AddText("a")
		d.AddParagraph().AddText("b")
	} else {
		d = Open(mkZip(append([]part{{relsPart, relsXML("")}, {"word/document.xml", docHead + body + docTail}}, want...)...))
	}
	parts := d.SplitByParagraph(func(p *docx.Paragraph) bool { return strings.HasPrefix(p.String(), "b") })
	sym.Assert(len(parts) == 2, "number of documents")
	for _, p := range parts {
		written(unzip(Save(p)), want)
	}
	written(unzip(Save(d)), want)
	sym.Reach("split")
}
