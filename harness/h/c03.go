package h

import (
	"reflect"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C03_table"] = C03_table
	All["C03_shape"] = C03_shape
	All["C03_onoff"] = C03_onoff
	All["C03_setters"] = C03_setters
}

func C03_table() {
	vary(func(g *gen) interface{} {
		t := &docx.Table{}
		fillOf(g, t)
		return t
	})
}

// C03_shape: rows and cells stay in place for any small table shape.
func C03_shape() {
	t := &docx.Table{}
	max := 2
	if sym.Thorough() {
		max = 3
	}
	rows := sym.Concrete(sym.Int("rows", 0, max))
	k := 0
	for i := 0; i < rows; i++ {
		r := &docx.WTableRow{}
		cols := sym.Concrete(sym.Int("cols", 0, max))
		for j := 0; j < cols; j++ {
			c := &docx.WTableCell{}
			n := sym.Concrete(sym.Int("paras", 0, 2))
			for l := 0; l < n; l++ {
				k++
				s := "p"
				if k == 2 {
					s = symText("s", 0, 1)
				}
				c.Paragraphs = append(c.Paragraphs, para(&docx.Run{Children: []interface{}{&docx.Text{Text: s + string(rune('a'+k))}}}))
			}
			r.TableCells = append(r.TableCells, c)
		}
		t.TableRows = append(t.TableRows, r)
	}
	roundtrip(para(), t, para(&docx.Run{}), t)
}

func C03_setters() {
	t := &docx.Table{TableRows: []*docx.WTableRow{{TableCells: []*docx.WTableCell{{}, {}}}, {}}}
	switch sym.Pick("preset", 3) {
	case 0:
		fillOf(newGen(), t)
	case 1:
		t.TableProperties = &docx.WTableProperties{}
		t.TableRows[0].TableRowProperties = &docx.WTableRowProperties{}
		t.TableRows[0].TableCells[0].TableCellProperties = &docx.WTableCellProperties{}
	}
	a, b := twoArgs()
	// the expectation, built from copies of the levels a setter touches
	w := *t
	w.TableRows = append([]*docx.WTableRow{}, t.TableRows...)
	row := *t.TableRows[0]
	w.TableRows[0] = &row
	row.TableCells = append([]*docx.WTableCell{}, row.TableCells...)
	cell := *row.TableCells[0]
	row.TableCells[0] = &cell
	switch sym.Pick("setter", 3) {
	case 0:
		sym.Assert(t.Justification(a) == t, "setter returns its table")
		p := docx.WTableProperties{}
		if w.TableProperties != nil {
			p = *w.TableProperties
		}
		p.Justification = &docx.Justification{Val: a}
		w.TableProperties = &p
	case 1:
		r := t.TableRows[0]
		sym.Assert(r.Justification(a) == r, "setter returns its row")
		p := docx.WTableRowProperties{}
		if row.TableRowProperties != nil {
			p = *row.TableRowProperties
		}
		p.Justification = &docx.Justification{Val: a}
		row.TableRowProperties = &p
	case 2:
		c := t.TableRows[0].TableCells[0]
		sym.Assert(c.Shade(a, b, "f") == c, "setter returns its cell")
		p := docx.WTableCellProperties{}
		if cell.TableCellProperties != nil {
			p = *cell.TableCellProperties
		}
		p.Shade = &docx.Shade{Val: a, Color: b, Fill: "f"}
		cell.TableCellProperties = &p
	}
	same(reflect.ValueOf(t), reflect.ValueOf(&w), "table")
	roundtrip(t)
}

// C03_onoff: the flags of the look of a table, in each spelling of on and off.
func C03_onoff() {
	names := []string{"firstRow", "lastRow", "firstColumn", "lastColumn", "noHBand", "noVBand"}
	words := []string{"1", "true", "on", "0", "false", "off"}
	at, other := pickN("at", len(names)), pickN("others", len(words))
	v := sym.Str("v", 1, 5)
	num := -1
	for i, w := range words {
		if v == w {
			num = i
		}
	}
	sym.Assume(num >= 0)
	xml := `<w:tblLook w:val="04A0"`
	for i, n := range names {
		x := words[other]
		if i == at {
			x = v
		}
		xml += " w:" + n + `="` + x + `"`
	}
	xml += "/>"
	d := Open(bodyXML(`<w:tbl><w:tblPr>` + xml + `</w:tblPr></w:tbl>`))
	check := func(d *docx.Docx) {
		l := d.Document.Body.Items[0].(*docx.Table).TableProperties.Look
		for i, x := range []int{int(l.FirstRow), int(l.LastRow), int(l.FirstCol), int(l.LastCol), int(l.NoHBand), int(l.NoVBand)} {
			on := other < 3
			if i == at {
				on = num < 3
			}
			sym.Assert((x == 1) == on && (x == 0) == !on, "flag of the look of a table")
		}
	}
	check(d)
	check(Reopen(d))
	sym.Reach("flag")
}
