package h

import (
	"errors"
	"hash/crc32"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C06_new"] = C06_new
	All["C06_opened"] = C06_opened
	All["C06_range"] = C06_range
}

func relsOf(d *docx.Docx) (rs []docx.Relationship) {
	err := d.RangeRelationships(func(r *docx.Relationship) error {
		rs = append(rs, *r)
		return nil
	})
	if err != nil {
		panic(err)
	}
	return
}

// png is a picture of w times h with a distinct last byte.
func png(w, h uint32, last byte) []byte {
	b := []byte("\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR")
	b = append(b, byte(w>>24), byte(w>>16), byte(w>>8), byte(w), byte(h>>24), byte(h>>16), byte(h>>8), byte(h))
	b = append(b, 8, 6, 0, 0, 0)
	c := crc32.Update(0, crc32.IEEETable, b[12:])
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c), last)
}

// gif is the same in another format.
func gif(w, h uint16, last byte) []byte {
	return append([]byte("GIF89a"), byte(w), byte(w>>8), byte(h), byte(h>>8), 0, 0, 0, last)
}

// ref is a link or picture that was added.
type ref struct {
	link   *docx.Hyperlink
	target string
	run    *docx.Run
	data   []byte
}

// embedOf is the relationship id of a picture run.
func embedOf(r *docx.Run) string {
	for _, c := range r.Children {
		if d, ok := c.(*docx.Drawing); ok {
			if d.Inline != nil {
				return d.Inline.Graphic.GraphicData.Pic.BlipFill.Blip.Embed
			}
			return d.Anchor.Graphic.GraphicData.Pic.BlipFill.Blip.Embed
		}
	}
	panic("no picture")
}

func addRef(p *docx.Paragraph, k int) ref {
	switch sym.Pick("op", 3) {
	case 0:
		t := symText("target", 0, 1) + sym.Choice("host", "", "http://h/?a=1&b=<2>")
		return ref{link: p.AddLink("text", t), target: t}
	case 1:
		data := png(2, 3, byte(k))
		r, err := p.AddInlineDrawing(data)
		if err != nil {
			panic(err)
		}
		return ref{run: r, data: data}
	}
	data := gif(3, 2, byte(k))
	r, err := p.AddAnchorDrawing(data)
	if err != nil {
		panic(err)
	}
	return ref{run: r, data: data}
}

// checkRefs: the relationships are unique, contain the old ones and resolve
// each added reference.
func checkRefs(d *docx.Docx, old []docx.Relationship, refs []ref) {
	rs := relsOf(d)
	sym.Assert(len(rs) == len(old)+len(refs), "number of relationships")
	for i := range rs {
		for j := 0; j < i; j++ {
			sym.Assert(rs[i].ID != rs[j].ID, "relationship ids are not unique")
		}
		t, err := d.ReferTarget(rs[i].ID)
		sym.Assert(err == nil && t == rs[i].Target, "lookup by id")
		id, err := d.ReferID(rs[i].Target)
		sym.Assert(err == nil, "lookup by target")
		t, err = d.ReferTarget(id)
		sym.Assert(err == nil && t == rs[i].Target, "lookup by target")
	}
	for _, o := range old {
		n := 0
		for _, r := range rs {
			if r.ID == o.ID {
				n++
				sym.Assert(r == o, "an existing relationship changed")
			}
		}
		sym.Assert(n == 1, "an existing relationship is lost")
	}
	for _, x := range refs {
		n := 0
		if x.link != nil {
			for _, r := range rs {
				if r.ID == x.link.ID {
					n++
					sym.Assert(r.Target == x.target, "target of a link")
					sym.Assert(r.Type == docx.REL_HYPERLINK && r.TargetMode == "External", "kind of a link relationship")
				}
			}
			sym.Assert(n == 1, "a link does not resolve")
			continue
		}
		id := embedOf(x.run)
		for _, r := range rs {
			if r.ID == id {
				n++
				sym.Assert(len(r.Target) > 6 && r.Target[:6] == "media/", "target of a picture")
				m := d.Media(r.Target[6:])
				sym.Assert(m != nil && string(m.Data) == string(x.data), "bytes of a picture")
				sym.Assert(r.Type == docx.REL_IMAGE && r.TargetMode == "", "kind of a picture relationship")
			}
		}
		sym.Assert(n == 1, "a picture does not resolve")
	}
	_, err := d.ReferTarget("rIdNone")
	sym.Assert(err != nil, "lookup of an unknown id")
	_, err = d.ReferID("nowhere")
	sym.Assert(err != nil, "lookup of an unknown target")
}

// reread finds the added references in the reopened document.
func reread(d *docx.Docx, refs []ref) (out []ref) {
	k := 0
	for _, p := range paras(d) {
		for _, c := range p.Children {
			switch x := c.(type) {
			case *docx.Hyperlink:
				out = append(out, ref{link: x, target: refs[k].target})
				k++
			case *docx.Run:
				out = append(out, ref{run: x, data: refs[k].data})
				k++
			}
		}
	}
	sym.Assert(k == len(refs), "number of references after reopening")
	return
}

func C06_new() {
	d := docx.New()
	old := relsOf(d)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	p := d.AddParagraph()
	var refs []ref
	for i := 0; i < n; i++ {
		refs = append(refs, addRef(p, i))
	}
	checkRefs(d, old, refs)
	d2 := Reopen(d)
	checkRefs(d2, old, reread(d2, refs))
	sym.Reach("new")
}

// symID is any relationship id that a package may have.
func symID(name string) string {
	switch sym.Pick(name+".form", 4) {
	case 0:
		k := sym.Concrete(sym.Int(name+".n", 1, 2))
		b := []byte("rId")
		for i := 0; i < k; i++ {
			c := sym.Byte(name)
			sym.Assume(c >= '0' && c <= '9')
			b = append(b, c)
		}
		return string(b)
	case 1:
		s := sym.Str(name, 1, 2)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9' && i > 0)
		}
		return s
	case 2:
		return sym.Choice(name, "rId", "rIdx", "R6a1f", "rId-3", "rId+7", "rid9", "rId4x", "rId0x5", "rId_8", "id4")
	}
	return sym.Choice(name, "rId99", "rId100", "rId2147483646", "rId2147483647", "rId2147483648", "rId4294967295", "rId4294967296", "rId18446744073709551615", "rId18446744073709551616", "rId9999999999999999999999")
}

func C06_opened() {
	a, b := symID("a"), symID("b")
	sym.Assume(a != b && a != "rIdNone" && b != "rIdNone")
	rels := `<Relationship Id="` + a + `" Type="ta" Target="x.xml"/><Relationship Id="` + b + `" Type="tb" Target="http://y" TargetMode="External"/>`
	doc := part{"word/document.xml", docHead + `<w:sectPr/>` + docTail}
	ps := []part{{relsPart, relsXML(rels)}, doc}
	if sym.Bool("relsLast") {
		ps[0], ps[1] = ps[1], ps[0]
	}
	d := Open(mkZip(ps...))
	old := []docx.Relationship{{ID: a, Type: "ta", Target: "x.xml"}, {ID: b, Type: "tb", Target: "http://y", TargetMode: "External"}}
	p := d.AddParagraph()
	refs := []ref{{target: "http://y"}, {target: "t1"}}
	for i := range refs {
		refs[i].link = p.AddLink("text", refs[i].target)
	}
	data := png(2, 3, 1)
	r, err := p.AddInlineDrawing(data)
	if err != nil {
		panic(err)
	}
	refs = append(refs, ref{run: r, data: data})
	checkRefs(d, old, refs)
	d2 := Reopen(d)
	checkRefs(d2, old, reread(d2, refs))
	sym.Reach("opened")
}

// C06_range: the iteration visits every relationship in order, and stops at
// and reports an error.
func C06_range() {
	d := docx.New()
	p := d.AddParagraph()
	n := sym.Concrete(sym.Int("links", 0, 2))
	for i := 0; i < n; i++ {
		p.AddLink("x", "t"+string(rune('a'+i)))
	}
	all := relsOf(d)
	sym.Assert(len(all) >= n, "number of relationships")
	stop := sym.Concrete(sym.Int("stop", 0, 5))
	k := 0
	e := errors.New("stop")
	err := d.RangeRelationships(func(r *docx.Relationship) error {
		sym.Assert(*r == all[k], "order of relationships")
		k++
		if k == stop {
			return e
		}
		return nil
	})
	if stop >= 1 && stop <= len(all) {
		sym.Assert(err == e && k == stop, "error of the iteration")
	} else {
		sym.Assert(err == nil && k == len(all), "end of the iteration")
	}
	sym.Reach("range")
}
