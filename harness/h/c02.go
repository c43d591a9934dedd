package h

import (
	"reflect"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C02_run"] = C02_run
	All["C02_paragraph"] = C02_paragraph
	All["C02_section"] = C02_section
	All["C02_hyperlink"] = C02_hyperlink
	All["C02_runsetters"] = C02_runsetters
	All["C02_parasetters"] = C02_parasetters
	All["C02_page"] = C02_page
}

func para(children ...interface{}) *docx.Paragraph { return &docx.Paragraph{Children: children} }

func C02_run() {
	vary(func(g *gen) interface{} {
		r := &docx.Run{}
		fillOf(g, r)
		return para(r)
	})
}

func C02_paragraph() {
	vary(func(g *gen) interface{} {
		p := &docx.ParagraphProperties{}
		fillOf(g, p)
		return &docx.Paragraph{Properties: p, Children: []interface{}{&docx.Run{}}}
	})
}

func C02_section() {
	vary(func(g *gen) interface{} {
		s := &docx.SectPr{}
		fillOf(g, s)
		return s
	})
}

func C02_hyperlink() {
	vary(func(g *gen) interface{} {
		p := &docx.Hyperlink{}
		fillOf(g, p)
		return para(p)
	})
}

func symText(name string, lo, hi int) string {
	s := sym.Str(name, lo, hi)
	AssumeText(s)
	return s
}

// presetRun is a run that already has every property, none, or no property
// element at all.
func presetRun() *docx.Run {
	r := &docx.Run{}
	switch sym.Pick("preset", 3) {
	case 0:
		r.RunProperties = &docx.RunProperties{}
	case 1:
		g := newGen()
		r.RunProperties = &docx.RunProperties{}
		fillOf(g, r.RunProperties)
	}
	return r
}

func C02_runsetters() {
	r := presetRun()
	var want docx.RunProperties
	if r.RunProperties != nil {
		want = *r.RunProperties
	}
	a, b := twoArgs()
	c, e := "c", "d"
	var ret *docx.Run
	switch sym.Pick("setter", 11) {
	case 0:
		ret = r.Color(a)
		want.Color = &docx.Color{Val: a}
	case 1:
		ret = r.Size(a)
		want.Size = &docx.Size{Val: a}
	case 2:
		ret = r.SizeCs(a)
		want.SizeCs = &docx.SizeCs{Val: a}
	case 3:
		ret = r.Shade(a, b, c)
		want.Shade = &docx.Shade{Val: a, Color: b, Fill: c}
	case 4:
		n := int(sym.Int64("n"))
		ret = r.Spacing(n)
		want.Spacing = &docx.Spacing{Line: n}
	case 5:
		ret = r.Bold()
		want.Bold = &docx.Bold{}
	case 6:
		ret = r.Italic()
		want.Italic = &docx.Italic{}
	case 7:
		ret = r.Underline(a)
		want.Underline = &docx.Underline{Val: a}
	case 8:
		ret = r.Highlight(a)
		want.Highlight = &docx.Highlight{Val: a}
	case 9:
		on := sym.Bool("on")
		ret = r.Strike(on)
		want.Strike = &docx.Strike{Val: "false"}
		if on {
			want.Strike.Val = "true"
		}
	case 10:
		ret = r.Font(a, b, c, e)
		want.Fonts = &docx.RunFonts{ASCII: a, EastAsia: b, HAnsi: c, Hint: e}
	}
	sym.Assert(ret == r, "setter returns its run")
	same(reflect.ValueOf(*r.RunProperties), reflect.ValueOf(want), "RunProperties")
	ps := paras(Reopen(bodyOf(para(r))))
	got := ps[0].Children[0].(*docx.Run)
	same(reflect.ValueOf(got), reflect.ValueOf(r), "run")
	sym.Reach("set")
}

func C02_parasetters() {
	p := &docx.Paragraph{}
	if sym.Bool("preset") {
		p.Properties = &docx.ParagraphProperties{}
		fillOf(newGen(), p.Properties)
	} else if sym.Bool("empty") {
		p.Properties = &docx.ParagraphProperties{}
	}
	var want docx.ParagraphProperties
	if p.Properties != nil {
		want = *p.Properties
		if want.RunProperties != nil {
			rp := *want.RunProperties
			want.RunProperties = &rp
		}
	}
	numRun := func() *docx.RunProperties {
		if want.RunProperties == nil {
			want.RunProperties = &docx.RunProperties{}
		}
		return want.RunProperties
	}
	a, b := twoArgs()
	var ret *docx.Paragraph
	switch sym.Pick("setter", 5) {
	case 0:
		ret = p.Justification(a)
		want.Justification = &docx.Justification{Val: a}
	case 1:
		ret = p.Style(a)
		want.Style = &docx.Style{Val: a}
	case 2:
		ret = p.NumPr(a, b)
		numRun()
		want.NumProperties = &docx.NumProperties{NumID: &docx.NumID{Val: a}, Ilvl: &docx.Ilevel{Val: b}}
	case 3:
		ret = p.NumFont(a, b, "c", "d")
		numRun().Fonts = &docx.RunFonts{ASCII: a, EastAsia: b, HAnsi: "c", Hint: "d"}
	case 4:
		ret = p.NumSize(a)
		numRun().Size = &docx.Size{Val: a}
	}
	sym.Assert(ret == p, "setter returns its paragraph")
	same(reflect.ValueOf(*p.Properties), reflect.ValueOf(want), "ParagraphProperties")
	ps := paras(Reopen(bodyOf(p)))
	same(reflect.ValueOf(ps[0]), reflect.ValueOf(p), "paragraph")
	sym.Reach("set")
}

func C02_page() {
	d := docx.New()
	d.AddParagraph().AddText("x")
	w, h := 16838, 23811
	if sym.Bool("a4") {
		d.WithA4Page()
		w, h = 11906, 16838
	} else {
		d.WithA3Page()
	}
	for i := 0; i < 2; i++ {
		n := 0
		for _, it := range d.Document.Body.Items {
			if s, ok := it.(*docx.SectPr); ok {
				n++
				sym.Assert(s.PgSz != nil && s.PgSz.W == w && s.PgSz.H == h, "page size")
			}
		}
		sym.Assert(n == 1, "one section")
		d = Reopen(d)
	}
	sym.Reach("page")
}
