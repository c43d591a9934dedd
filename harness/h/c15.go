package h

import (
	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C15_table"] = C15_table
	All["C15_twips"] = C15_twips
	All["C15_cells"] = C15_cells
}

// symSize is any size, often none.
func symSize(name string, pos bool) (int64, bool) {
	if pos {
		v := sym.Int64(name)
		sym.Assume(v > 0 && v < 1000000)
		return v, true
	}
	switch sym.Pick(name+".kind", 3) {
	case 0:
		return 0, false
	case 1:
		v := sym.Int64(name)
		sym.Assume(v < 0)
		return v, false
	}
	v := sym.Int64(name)
	sym.Assume(v > 0)
	return v, true
}

var black = [6]string{"#000000", "#000000", "#000000", "#000000", "#000000", "#000000"}

// symColors are border colors, some of them given.
func symColors() (*docx.APITableBorderColors, [6]string) {
	def := black
	if sym.Bool("default colors") {
		return nil, def
	}
	c := new(docx.APITableBorderColors)
	f := []*string{&c.Top, &c.Left, &c.Bottom, &c.Right, &c.InsideH, &c.InsideV}
	given := pickN("given", 8) // one of them, none, or all
	for i := range f {
		if given == i || given == 7 {
			s := ""
			if given == 7 {
				s = string(rune('0'+i)) + digitStr("c", 1, 1)
			} else {
				s = anyArg("color")
			}
			*f[i] = s
			if s != "" {
				def[i] = s
			}
		}
	}
	return c, def
}

func digitStr(name string, lo, hi int) string {
	s := sym.Str(name, lo, hi)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= '0' && s[i] <= '9')
	}
	return s
}

// wanted is the table that was asked for.
type wanted struct {
	rows, cols      int
	width           int64
	hasWidth        bool
	colors          [6]string
	heights, widths []int64
	hasH, hasW      []bool
}

func (w *wanted) check(t *docx.Table) {
	sym.Assert(len(t.TableRows) == w.rows, "number of rows")
	for i, r := range t.TableRows {
		sym.Assert(len(r.TableCells) == w.cols, "number of columns")
		if w.heights != nil {
			var h *docx.WTableRowHeight
			if r.TableRowProperties != nil {
				h = r.TableRowProperties.TableRowHeight
			}
			if w.hasH[i] {
				sym.Assert(h != nil && h.Val == w.heights[i], "height of a row")
			} else {
				sym.Assert(h == nil, "height of a row")
			}
		} else {
			sym.Assert(r.TableRowProperties == nil || r.TableRowProperties.TableRowHeight == nil, "height of a row")
		}
		for j, c := range r.TableCells {
			sym.Assert(c != nil && c.TableCellProperties != nil && c.TableCellProperties.TableCellWidth != nil, "width of a cell")
			cw := c.TableCellProperties.TableCellWidth
			if w.widths == nil {
				sym.Assert(cw.Type == "auto" && cw.W == 0, "width of a cell")
			} else {
				sym.Assert(cw.Type == "dxa" && cw.W == w.widths[j], "width of a cell")
			}
		}
	}
	if w.widths != nil {
		sym.Assert(t.TableGrid != nil && len(t.TableGrid.GridCols) == w.cols, "columns of the grid")
		for j, g := range t.TableGrid.GridCols {
			if w.hasW[j] {
				sym.Assert(g != nil && g.W == w.widths[j], "width of a column")
			} else {
				sym.Assert(g == nil || g.W <= 0, "width of a column")
			}
		}
	}
	p := t.TableProperties
	sym.Assert(p != nil && p.Width != nil && p.TableBorders != nil, "table properties")
	if w.hasWidth {
		sym.Assert(p.Width.W == w.width, "width of the table")
		sym.Assert(p.Width.Type != "auto", "kind of the width of the table")
	} else {
		sym.Assert(p.Width.W == 0 && p.Width.Type == "auto", "width of the table")
	}
	b := p.TableBorders
	for i, x := range []*docx.WTableBorder{b.Top, b.Left, b.Bottom, b.Right, b.InsideH, b.InsideV} {
		sym.Assert(x != nil && x.Color == w.colors[i], "color of a border")
		sym.Assert(x.Val == "single" && x.Size == 4 && x.Space == 0, "default of a border")
	}
}

// distinct: every row and cell is its own.
func (w *wanted) distinct(t *docx.Table) {
	var cells []*docx.WTableCell
	for i, r := range t.TableRows {
		for _, q := range t.TableRows[:i] {
			sym.Assert(q != r && q.TableRowProperties != r.TableRowProperties, "rows share")
		}
		for _, c := range r.TableCells {
			for _, d := range cells {
				sym.Assert(c != d && c.TableCellProperties != d.TableCellProperties && c.TableCellProperties.TableCellWidth != d.TableCellProperties.TableCellWidth, "cells share")
			}
			cells = append(cells, c)
		}
	}
	if w.widths != nil {
		for i, g := range t.TableGrid.GridCols {
			for _, q := range t.TableGrid.GridCols[:i] {
				sym.Assert(q != g || q == nil, "columns share")
			}
		}
	}
}

// place makes a document with some content before the table.
func place() (*docx.Docx, int) {
	d := docx.New()
	n := pickN("before", 3)
	for i := 0; i < n; i++ {
		if i == 1 {
			d.AddTable(1, 1, 0, nil)
			continue
		}
		d.AddParagraph().AddText("before")
	}
	return d, n
}

func checkTable(d *docx.Docx, t *docx.Table, n int, w *wanted) {
	it := d.Document.Body.Items
	sym.Assert(len(it) == n+1 && it[n] == interface{}(t), "the table is not at the end of the body")
	w.check(t)
	w.distinct(t)
	// cells hold their own text
	for i, r := range t.TableRows {
		for j, c := range r.TableCells {
			c.AddParagraph().AddText(string(rune('a' + i*4 + j)))
		}
	}
	w.check(t)
	got := Reopen(d)
	it = got.Document.Body.Items
	sym.Assert(len(it) == n+1, "number of body items")
	q, ok := it[n].(*docx.Table)
	sym.Assert(ok, "the table is not at the end of the body")
	w.check(q)
	for i, r := range q.TableRows {
		for j, c := range r.TableCells {
			sym.Assert(len(c.Paragraphs) == 1 && c.Paragraphs[0].String() == string(rune('a'+i*4+j)), "text of a cell")
		}
	}
}

// C15_table: AddTable.
func C15_table() {
	var d *docx.Docx
	var n int
	var c *docx.APITableBorderColors
	w := &wanted{rows: 1, cols: 2, colors: black}
	if sym.Bool("shape") {
		d, n = place()
		w.rows, w.cols = pickN("rows", 5), pickN("cols", 5)
		if sym.Bool("wide") {
			w.width, w.hasWidth = 500, true
			c = &docx.APITableBorderColors{Left: "ff0000"}
			w.colors[1] = "ff0000"
		}
	} else {
		d = docx.New()
		if sym.Bool("width") {
			w.width, w.hasWidth = symSize("width", false)
		} else {
			c, w.colors = symColors()
		}
	}
	checkTable(d, d.AddTable(w.rows, w.cols, w.width, c), n, w)
	sym.Reach("table")
}

// C15_twips: AddTableTwips.
func C15_twips() {
	d := docx.New()
	n := 0
	var c *docx.APITableBorderColors
	w := &wanted{rows: 1, cols: 2, colors: black, heights: []int64{}, widths: []int64{}}
	// what is varied: the shape, a height, the widths, the rest
	focus := pickN("focus", 5)
	odd, wide := -1, 0
	switch focus {
	case 0:
		d, n = place()
		w.rows, w.cols = pickN("rows", 5), pickN("cols", 5)
	case 1:
		w.rows = 1 + pickN("rows", 3)
		odd = pickN("odd", w.rows) // this height is any
	case 2:
		w.cols = 1 + pickN("cols", 3)
		wide = 1 + pickN("wide", w.cols)
	case 3:
		w.width, w.hasWidth = symSize("width", false)
	case 4:
		c, w.colors = symColors()
	}
	for i := 0; i < w.rows; i++ {
		h, ok := int64(10+i), true
		if i == odd {
			h, ok = symSize("height", false)
		}
		w.heights, w.hasH = append(w.heights, h), append(w.hasH, ok)
	}
	for i := 0; i < w.cols; i++ {
		x, ok := int64(20+i), true
		if i == wide-1 {
			x, ok = symSize("column", true)
		}
		w.widths, w.hasW = append(w.widths, x), append(w.hasW, ok)
	}
	hs, ws := append([]int64{}, w.heights...), append([]int64{}, w.widths...)
	t := d.AddTableTwips(hs, ws, w.width, c)
	for i := range hs {
		hs[i]++
	}
	for i := range ws {
		ws[i]++
	}
	checkTable(d, t, n, w)
	sym.Reach("twips")
}

// C15_cells: paragraphs added to one cell are in no other.
func C15_cells() {
	d := docx.New()
	rows, cols := 1+pickN("rows", 3), 1+pickN("cols", 3)
	var t *docx.Table
	if sym.Bool("twips") {
		t = d.AddTableTwips(make([]int64, rows), []int64{5, 6, 7}[:cols], 0, nil)
	} else {
		t = d.AddTable(rows, cols, 0, nil)
	}
	r, c := pickN("r", rows), pickN("c", cols)
	cell := t.TableRows[r].TableCells[c]
	k := 1 + pickN("paragraphs", 3)
	s := symText("s", 0, 1)
	for i := 0; i < k; i++ {
		p := cell.AddParagraph()
		p.AddText(s)
		p.AddLink("l", "t")
		if _, err := p.AddInlineDrawing(png(2, 3, 1)); err != nil {
			sym.Fail("a picture cannot be added to a cell")
		}
	}
	for n := 0; n < 2; n++ {
		for i, x := range t.TableRows {
			for j, y := range x.TableCells {
				if i == r && j == c {
					sym.Assert(len(y.Paragraphs) == k, "paragraphs of the cell")
					for _, p := range y.Paragraphs {
						sym.Assert(len(p.Children) == 3 && p.Children[0].(*docx.Run) != nil, "content of the cell")
					}
				} else {
					sym.Assert(len(y.Paragraphs) == 0, "paragraphs of another cell")
				}
			}
		}
		sym.Assert(len(relsOf(d)) == 3+2*k, "relationships")
		d = Reopen(d)
		t = d.Document.Body.Items[0].(*docx.Table)
	}
	sym.Reach("cells")
}
