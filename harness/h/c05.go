package h

import (
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C05_noise"] = C05_noise
	All["C05_attr"] = C05_attr
	All["C05_attrname"] = C05_attrname
	All["C05_elemname"] = C05_elemname
	All["C05_short"] = C05_short
	All["C05_outer"] = C05_outer
	All["C05_rels"] = C05_rels
}

// noises are insertions without meaning.
var noises = []string{
	`<x:zz></x:zz>`,
	`<x:zz a="1" w:val="2"><x:yy/>t<w:p><w:r><w:t>no</w:t></w:r></w:p><x:zz>u</x:zz></x:zz>`,
	`<w:proofErr w:type="spellStart"/>`,
	"<!-- <w:p> -->",
	`<?pi <w:p> ?>`,
	"\n  ",
}

// gaps lists the places between two tags.
func gaps(xml string) (at []int) {
	for i := 1; i < len(xml); i++ {
		if xml[i] == '<' && xml[i-1] == '>' {
			at = append(at, i)
		}
	}
	return
}

// C05_noise: an insertion at any place changes nothing of what is read.
func C05_noise() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	at := gaps(xml)
	i := at[pickN("at", len(at))]
	noise := noises[pickN("noise", len(noises))]
	if noise == noises[0] { // any name of capitals
		name := sym.Str("name", 1, 1)
		sym.Assume(name[0] >= 'A' && name[0] <= 'Z')
		noise = "<x:Z" + name + "></x:Z" + name + ">"
	}
	got := Open(bodyXML(xml[:i] + noise + xml[i:]))
	want := goldenItem(kind, newGen())
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("noise")
}

// C05_attr: an unknown attribute of any element, before or after the known
// ones, changes nothing.
func C05_attr() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	var at []int // the names of start tags end here
	for i := 0; i < len(xml); i++ {
		if xml[i] == '<' && xml[i+1] != '/' {
			for xml[i] != ' ' && xml[i] != '>' {
				i++
			}
			at = append(at, i)
		}
	}
	i := at[pickN("at", len(at))]
	if sym.Bool("last") {
		for xml[i] != '>' {
			i++
		}
	}
	s := sym.Str("s", 0, 1)
	for j := 0; j < len(s); j++ {
		sym.Assume(s[j] >= 0x20 && s[j] < 0x7f && s[j] != '"' && s[j] != '&' && s[j] != '<')
	}
	got := Open(bodyXML(xml[:i] + ` x:zz="` + s + `"` + xml[i:]))
	want := goldenItem(kind, newGen())
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("attr")
}

// startTag is a start tag of a document: its name ends at name, the tag ends
// at end, and its attributes have the local names attrs.
type startTag struct {
	name, end int
	attrs     []string
}

func startTags(xml string) (ts []startTag) {
	for i := 0; i < len(xml); i++ {
		if xml[i] != '<' || xml[i+1] == '/' {
			continue
		}
		for xml[i] != ' ' && xml[i] != '>' {
			i++
		}
		t := startTag{name: i}
		for xml[i] != '>' {
			if xml[i] == ' ' {
				j := i + 1
				for xml[j] != '=' {
					if xml[j] == ':' {
						i = j
					}
					j++
				}
				t.attrs = append(t.attrs, xml[i+1:j])
				i = j + 2
				for xml[i] != '"' {
					i++
				}
			}
			i++
		}
		t.end = i
		ts = append(ts, t)
	}
	return
}

// anyName is any name of n letters but those given.
func anyName(n int, but []string) string {
	name := sym.Str("name", n, n)
	for i := 0; i < n; i++ {
		c := name[i] | 0x20 // both cases
		sym.Assume(c >= 'a')
		sym.Assume(c <= 'z')
	}
	for _, b := range but {
		if len(b) == n {
			sym.Assume(name != b)
		}
	}
	return name
}

// C05_attrname: an attribute of a known namespace, with any name that the
// element does not have in the reference document.
func C05_attrname() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	ts := startTags(xml)
	t := ts[pickN("at", len(ts))]
	max := 9
	if sym.Thorough() {
		max = 16
	}
	but := append(t.attrs, "xmlns")
	switch i := t.name; { // read wherever they are, by their local names
	case strings.HasSuffix(xml[:i], "<w:r") || strings.HasSuffix(xml[:i], "<w:t"):
		but = append(but, "space")
	case strings.HasSuffix(xml[:i], "<a:graphic"):
		but = append(but, "a")
	}
	name := anyName(1+pickN("len", max), but)
	at := t.end
	if sym.Bool("first") {
		at = t.name
	}
	got := Open(bodyXML(xml[:at] + ` w:` + name + `="7"` + xml[at:]))
	want := goldenItem(kind, newGen())
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("attrname")
}

// modelled are the names of the elements in the reference documents.
func modelled() (names []string) {
	seen := map[string]bool{}
	for _, kind := range goldenKinds {
		xml := goldenXML[kind]
		for _, t := range startTags(xml) {
			i := t.name
			for xml[i-1] != ':' {
				i--
			}
			if n := xml[i:t.name]; !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
	}
	return
}

// C05_elemname: an element of a known namespace, with any name that is not in
// the reference documents.
func C05_elemname() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	at := gaps(xml)
	i := at[pickN("at", len(at))]
	max := 8
	if sym.Thorough() {
		max = 16
	}
	name := anyName(1+pickN("len", max), modelled())
	got := Open(bodyXML(xml[:i] + `<w:` + name + ` w:val="7" w:type="6"></w:` + name + `>` + xml[i:]))
	want := goldenItem(kind, newGen())
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("elemname")
}

// C05_short: empty elements are the same in their short form.
func C05_short() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	if sym.Bool("reversed") {
		xml = goldenRev[kind]
	}
	var b strings.Builder
	n, open := 0, false
	for i := 0; i < len(xml); i++ {
		if xml[i] == '<' {
			open = xml[i+1] != '/'
		}
		if open && strings.HasPrefix(xml[i:], "></") {
			open = false
			b.WriteString("/>")
			for i++; xml[i] != '>'; i++ {
			}
			n++
			continue
		}
		b.WriteByte(xml[i])
	}
	sym.Assert(n > 0, "no empty element")
	got := Open(bodyXML(b.String()))
	want := goldenItem(kind, newGen())
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("short")
}

// C05_outer: insertions around the body, and between its items.
func C05_outer() {
	ps := `<w:p><w:r><w:t>a</w:t></w:r></w:p>`
	tb := `<w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl>`
	head := docHead[strings.Index(docHead, "<w:document"):]
	k := strings.Index(head, "<w:body>")
	pieces := []string{head[:k], head[k:], ps, tb, ps, "</w:body>", "</w:document>", ""}
	at := pickN("at", len(pieces)+1)
	n := len(noises)
	if at == 0 || at >= 7 {
		n = 3 // outside the root only comments, instructions and blanks
	}
	noise := noises[len(noises)-1-pickN("noise", n)]
	xml := ""
	for i, p := range pieces {
		if i == at {
			xml += noise
		}
		xml += p
	}
	if at == len(pieces) {
		xml += noise
	}
	decl := ""
	if sym.Bool("decl") {
		decl = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`
	}
	d := Open(mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", decl + xml}))
	it := d.Document.Body.Items
	sym.Assert(len(it) == 3, "number of body items")
	_, isT := it[1].(*docx.Table)
	sym.Assert(isT, "order of body items")
	sym.Assert(it[0].(*docx.Paragraph).String() == "a" && it[2].(*docx.Paragraph).String() == "a", "text")
	sym.Reach("outer")
}

// C05_rels: insertions in the relationships.
func C05_rels() {
	pieces := []string{
		`<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"`, `>`,
		`<Relationship Id="rId7" Type="t1" Target="a.xml"`, `/>`,
		`<Relationship TargetMode="External" Target="b" Type="t2" Id="rId5"`, `>`, `</Relationship>`, `</Relationships>`, "",
	}
	at := pickN("at", len(pieces)+1)
	noise := ""
	switch at {
	case 1, 3, 5: // inside a start tag
		noise = ` zz="1"`
	case 0, 8, 9: // outside the root
		noise = noises[len(noises)-1-pickN("noise", 3)]
	default:
		noise = []string{`<zz xmlns="urn:x" Id="rId9"/>`, "<!-- c -->", "<?pi c?>", "\n ", "<zz>t<yy/></zz>"}[pickN("noise", 5)]
	}
	xml := ""
	for i, p := range pieces {
		if i == at {
			xml += noise
		}
		xml += p
	}
	if at == len(pieces) {
		xml += noise
	}
	d := Open(mkZip(part{relsPart, xml}, part{"word/document.xml", docHead + docTail}))
	rs := relsOf(d)
	sym.Assert(len(rs) == 2, "number of relationships")
	sym.Assert(rs[0] == docx.Relationship{ID: "rId7", Type: "t1", Target: "a.xml"}, "relationship")
	sym.Assert(rs[1] == docx.Relationship{ID: "rId5", Type: "t2", Target: "b", TargetMode: "External"}, "relationship")
	sym.Reach("rels")
}
