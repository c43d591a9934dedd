package h

import (
	"reflect"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C08_order"] = C08_order
	All["C08_rules"] = C08_rules
	All["C08_source"] = C08_source
}

func drawingOf(name string) *docx.Drawing {
	return &docx.Drawing{Inline: &docx.WPInline{DocPr: &docx.WPDocPr{Name: name}}}
}

// mergeRun is a run of any few children.
func mergeRun(max int, textOf func() string) *docx.Run {
	r := &docx.Run{}
	n := sym.Concrete(sym.Int("n", 0, max))
	for i := 0; i < n; i++ {
		switch sym.Pick("child", 4) {
		case 0:
			r.Children = append(r.Children, &docx.Text{Text: textOf()})
		case 1:
			r.Children = append(r.Children, &docx.Tab{})
		case 2:
			r.Children = append(r.Children, &docx.BarterRabbet{})
		case 3:
			r.Children = append(r.Children, drawingOf("d"))
		}
	}
	return r
}

// token is a piece of the content of runs: text between other children.
type token struct {
	text string
	el   interface{}
}

func tokens(rs []*docx.Run) (ts []token) {
	text := ""
	for _, r := range rs {
		for _, c := range r.Children {
			if t, ok := c.(*docx.Text); ok {
				text += t.Text
				continue
			}
			if text != "" {
				ts = append(ts, token{text: text})
				text = ""
			}
			ts = append(ts, token{el: c})
		}
	}
	if text != "" {
		ts = append(ts, token{text: text})
	}
	return
}

// keepsBlank tells whether white space at the ends of the text survives in
// other programs.
func keepsBlank(t *docx.Text) bool { return t.XMLSpace == "preserve" }

// C08_order: any rule, any few children.
func C08_order() {
	texts := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i"}
	k := 0
	textOf := func() string {
		k++
		if k == 2 {
			return sym.Str("s", 0, 1)
		}
		return texts[k]
	}
	n := 3
	pa, pb := &docx.RunProperties{}, &docx.RunProperties{}
	p := docx.New().AddParagraph()
	var seq []interface{}
	cnt := sym.Concrete(sym.Int("children", 0, n))
	for i := 0; i < cnt; i++ {
		var c interface{}
		if i == 1 && sym.Bool("link") {
			c = &docx.Hyperlink{ID: "x"}
		} else {
			max := 2
			if i == 2 {
				max = 1
			}
			r := mergeRun(max, textOf)
			if sym.Bool("b") {
				r.RunProperties = pb
			} else {
				r.RunProperties = pa
			}
			c = r
		}
		seq = append(seq, c)
	}
	p.Children = append(p.Children, seq...)
	p.Properties = &docx.ParagraphProperties{}
	all := sym.Bool("all")
	rule := docx.RunMergeRule(func(r1, r2 *docx.Run) bool { return r1.RunProperties == r2.RunProperties })
	if all {
		rule = docx.MergeAllRuns
	}
	np := p.MergeText(rule)
	sym.Assert(np.Properties == p.Properties, "paragraph formatting")
	// the expected groups
	var groups [][]*docx.Run
	var want []interface{} // *Hyperlink or index of a group
	var prev *docx.Run
	for _, c := range seq {
		r, ok := c.(*docx.Run)
		if !ok {
			want = append(want, c)
			prev = nil
			continue
		}
		if prev != nil && (all || prev.RunProperties == r.RunProperties) {
			groups[len(groups)-1] = append(groups[len(groups)-1], r)
			continue
		}
		prev = r
		want = append(want, len(groups))
		groups = append(groups, []*docx.Run{r})
	}
	sym.Assert(len(np.Children) == len(want), "number of merged children")
	for i, w := range want {
		g, ok := w.(int)
		if !ok {
			sym.Assert(np.Children[i] == w, "a child that is no run")
			continue
		}
		r, ok := np.Children[i].(*docx.Run)
		sym.Assert(ok, "order of children")
		sym.Assert(r.RunProperties == groups[g][0].RunProperties, "formatting of a merged run")
		a, b := tokens([]*docx.Run{r}), tokens(groups[g])
		sym.Assert(len(a) == len(b), "number of pieces of a merged run")
		for j := range a {
			sym.Assert(a[j].text == b[j].text, "text of a merged run")
			sym.Assert(a[j].el == b[j].el, "a child of a merged run")
		}
	}
	sym.Assert(np.String() == p.String(), "plain text of the merged paragraph")
	// the source
	sym.Assert(len(p.Children) == len(seq), "the source changed")
	for i := range seq {
		sym.Assert(p.Children[i] == seq[i], "the source changed")
	}
	sym.Reach("merged")
}

// C08_source: the texts of the source keep their values, and merging again or
// changing the result does not reach them.
func C08_source() {
	mk := func(s, sp string) *docx.Paragraph {
		t := func(x string) *docx.Text { return &docx.Text{Text: x, XMLSpace: sp} }
		return &docx.Paragraph{Children: []interface{}{
			&docx.Run{Children: []interface{}{t("a"), t(s)}},
			&docx.Run{Children: []interface{}{t(s), &docx.Tab{}, t("b")}},
			&docx.Run{InstrText: "PAGE", Children: []interface{}{}},
			&docx.Run{Children: []interface{}{t(s)}},
		}}
	}
	s := sym.Str("s", 0, 2)
	sp := sym.Choice("space", "", "preserve")
	p, q := mk(s, sp), mk(s, sp)
	m1 := p.MergeText(docx.MergeAllRuns)
	m2 := p.MergeText(docx.MergeAllRuns)
	same(reflect.ValueOf(p), reflect.ValueOf(q), "source")
	same(reflect.ValueOf(m1), reflect.ValueOf(m2), "merged twice")
	m3 := m1.MergeText(docx.MergeAllRuns)
	same(reflect.ValueOf(m3), reflect.ValueOf(m1), "merged again")
	sym.Assert(m1.String() == p.String(), "text")
	instr := ""
	for _, c := range m1.Children {
		instr += c.(*docx.Run).InstrText
	}
	sym.Assert(instr == "PAGE", "field code of a merged run")
	sym.Reach("source")
}

// propEqual compares two formatting parts by content.
func propEqual(a, b reflect.Value) bool {
	if a.IsNil() || b.IsNil() {
		return a.IsNil() && b.IsNil()
	}
	a, b = a.Elem(), b.Elem()
	t := a.Type()
	for i := 0; i < t.NumField(); i++ {
		if skipField(t.Field(i)) {
			continue
		}
		x, y := a.Field(i), b.Field(i)
		switch x.Kind() {
		case reflect.String:
			if x.String() != y.String() {
				return false
			}
		case reflect.Int, reflect.Int64:
			if x.Int() != y.Int() {
				return false
			}
		default:
			panic(t.Field(i).Name)
		}
	}
	return true
}

// C08_rules: the predefined rules on any two runs that differ in any one
// value or part.
func C08_rules() {
	variants(func(g *gen) {
		b := &docx.Run{RunProperties: &docx.RunProperties{}}
		fillOf(g, b.RunProperties)
		if !g.hit {
			return // the dry run
		}
		a := &docx.Run{RunProperties: &docx.RunProperties{}}
		switch sym.Pick("other", 4) {
		case 0:
			fillOf(newGen(), a.RunProperties)
		case 1: // empty
		case 2:
			a.RunProperties = nil
		case 3: // an equal copy
			c := *b.RunProperties
			a.RunProperties = &c
			va := reflect.ValueOf(a.RunProperties).Elem()
			for i := 0; i < va.NumField(); i++ {
				f := va.Field(i)
				if f.Kind() == reflect.Ptr && !f.IsNil() {
					x := reflect.New(f.Type().Elem())
					x.Elem().Set(f.Elem())
					f.Set(x)
				}
			}
		}
		if sym.Bool("swap") {
			a, b = b, a
		}
		sym.Assert(docx.MergeAllRuns(a, b), "the rule of all runs")
		t := reflect.TypeOf(docx.RunProperties{})
		var names []string
		for _, i := range fieldsOf(t) {
			names = append(names, t.Field(i).Name)
		}
		eq := func(n string) bool {
			return propEqual(reflect.ValueOf(a.RunProperties).Elem().FieldByName(n), reflect.ValueOf(b.RunProperties).Elem().FieldByName(n))
		}
		if a.RunProperties == nil || b.RunProperties == nil {
			both := a.RunProperties == b.RunProperties
			sym.Assert(docx.MergeSamePropRuns(a, b) == both, "the rule of equal formatting")
			sym.Assert(docx.MergeSamePropRunsOf(names[0])(a, b) == both, "the rule of named formatting")
		} else {
			all := true
			for _, n := range names {
				e := eq(n)
				all = all && e
				sym.Assert(docx.MergeSamePropRunsOf(n)(a, b) == e, "the rule of one named formatting: "+n)
			}
			sym.Assert(docx.MergeSamePropRuns(a, b) == all, "the rule of equal formatting")
			sym.Assert(docx.MergeSamePropRunsOf(names...)(a, b) == all, "the rule of all named formatting")
			i := pickN("i", len(names))
			j := (i + 1) % len(names)
			sym.Assert(docx.MergeSamePropRunsOf(names[i], names[j])(a, b) == (eq(names[i]) && eq(names[j])), "the rule of two named formatting")
			sym.Assert(docx.MergeSamePropRunsOf()(a, b), "the rule of no named formatting")
		}
		sym.Reach("rules")
	})
}
