package h

import (
	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C08_formatted"] = C08_formatted
	All["C09_formatted"] = C09_formatted
	All["C10_formatted"] = C10_formatted
	All["C11_formatted"] = C11_formatted
	All["C21_formatted"] = C21_formatted
}

// formatted calls fn with a paragraph of the body and one of a table, and
// their document, in which the formatting of the runs, the paragraphs, the
// cells, the rows or the table is any: every value of it, each part absent,
// each part alone.
func formatted(fn func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table)) {
	which := pickN("which", 5)
	variants(func(g *gen) {
		d := docx.New()
		p := d.AddParagraph()
		r := p.AddText("a")
		t := d.AddTable(2, 2, 0, nil)
		c := t.TableRows[1].TableCells[1]
		q := c.AddParagraph()
		s := q.AddText("b")
		t.TableRows[0].TableCells[0].AddParagraph().AddText("c")
		switch which {
		case 0:
			r.RunProperties = &docx.RunProperties{}
			fillOf(g, r.RunProperties)
			s.RunProperties = r.RunProperties
		case 1:
			p.Properties = &docx.ParagraphProperties{}
			fillOf(g, p.Properties)
			q.Properties = p.Properties
		case 2:
			c.TableCellProperties = &docx.WTableCellProperties{}
			fillOf(g, c.TableCellProperties)
		case 3:
			t.TableRows[1].TableRowProperties = &docx.WTableRowProperties{}
			fillOf(g, t.TableRows[1].TableRowProperties)
		case 4:
			t.TableProperties = &docx.WTableProperties{}
			fillOf(g, t.TableProperties)
		}
		if g.hit { // not in the dry run
			fn(d, p, q, t)
		}
	})
}

// C11_formatted: drop operations do not depend on formatting.
func C11_formatted() {
	name := sym.Choice("name", "Shape", "NilPicture")
	formatted(func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table) {
		for _, x := range []*docx.Paragraph{p, q} {
			r := x.Children[0].(*docx.Run)
			r.Children = append(r.Children, drawingOfKind(dkShape, false), &docx.Tab{})
		}
		d.Document.Body.DropDrawingOf(name)
		for _, x := range []*docx.Paragraph{p, q} {
			sym.Assert(len(x.Children) == 1, "children of the paragraph")
			r := x.Children[0].(*docx.Run)
			sym.Assert(len(r.Children) == 2, "a drawing is not dropped, or more than it")
			_, text := r.Children[0].(*docx.Text)
			_, tab := r.Children[1].(*docx.Tab)
			sym.Assert(text && tab, "the other children of the run")
		}
	})
	sym.Reach("formatted")
}

const tableText = "|  :----: | :----: |\n| c |        |\n|        | "

// C21_formatted: the plain text does not depend on formatting.
func C21_formatted() {
	formatted(func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table) {
		p.AddLink("l", "u:l")
		q.AddTab()
		sym.Assert(p.String() == "a[l](u:l)", "the text of a paragraph")
		sym.Assert(q.String() == "b\t", "the text of a paragraph in a cell")
		sym.Assert(t.String() == tableText+"b\t |", "the text of a table")
	})
	sym.Reach("formatted")
}

// C08_formatted: merging keeps the text and the formatting, whatever it is.
func C08_formatted() {
	formatted(func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table) {
		q.AddTab()
		q.AddText("z")
		np := q.MergeText(docx.MergeAllRuns)
		sym.Assert(np.String() == "b\tz", "the text of the merged paragraph")
		sym.Assert(np.Properties == q.Properties, "the formatting of the merged paragraph")
		sym.Assert(len(np.Children) == 1, "number of merged runs")
		sameBut(np.Children[0].(*docx.Run).RunProperties, q.Children[0].(*docx.Run).RunProperties)
	})
	sym.Reach("formatted")
}

// C09_formatted: appended content has the formatting of the source.
func C09_formatted() {
	formatted(func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table) {
		to := docx.New()
		to.AppendFile(d)
		sameItems(to.Document.Body.Items, d.Document.Body.Items)
	})
	sym.Reach("formatted")
}

// C10_formatted: the parts have the formatting of the original.
func C10_formatted() {
	formatted(func(d *docx.Docx, p, q *docx.Paragraph, t *docx.Table) {
		d.AddParagraph().AddText("last")
		ds := d.SplitByParagraph(func(*docx.Paragraph) bool { return true })
		sym.Assert(len(ds) == 2, "number of parts")
		sameItems(append(append([]interface{}{}, ds[0].Document.Body.Items...), ds[1].Document.Body.Items...), d.Document.Body.Items)
	})
	sym.Reach("formatted")
}
