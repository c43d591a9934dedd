package h

import (
	"bytes"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C18_size"] = C18_size
	All["C18_small"] = C18_small
	All["C18_each"] = C18_each
	All["C18_saved"] = C18_saved
	All["C18_errors"] = C18_errors
}

// jpg is the start of a picture in a third format.
func jpg(w, h uint16, last byte) []byte {
	return []byte{0xff, 0xd8, 0xff, 0xe0, 0, 4, 1, 2, 0xff, 0xc0, 0, 11, 8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 1, 1, 0x11, 0, last}
}

// addPicture adds a picture one of the four ways.
func addPicture(p *docx.Paragraph, data []byte) (*docx.Run, error) {
	switch sym.Concrete(sym.Pick("way", 4)) {
	case 0:
		return p.AddInlineDrawing(data)
	case 1:
		return p.AddAnchorDrawing(data)
	case 2:
		return p.AddInlineDrawingFrom(sym.File(data))
	}
	return p.AddAnchorDrawingFrom(sym.File(data))
}

// extents are the sizes of a drawing and of the picture in it.
func extents(d *docx.Drawing) (w, h, pw, ph int64) {
	var e *docx.WPExtent
	var g *docx.AGraphic
	if d.Inline != nil {
		e, g = d.Inline.Extent, d.Inline.Graphic
	} else {
		e, g = d.Anchor.Extent, d.Anchor.Graphic
	}
	x := g.GraphicData.Pic.SpPr.Xfrm.Ext
	return e.CX, e.CY, x.CX, x.CY
}

const fullWidth = 5274310 // the text width of the page

func runDrawing(r *docx.Run) *docx.Drawing {
	for _, c := range r.Children {
		if d, ok := c.(*docx.Drawing); ok {
			return d
		}
	}
	sym.Fail("no drawing was added")
	return nil
}

func checkKind(r *docx.Run, inline bool) {
	d := runDrawing(r)
	sym.Assert((d.Inline != nil) == inline && (d.Anchor != nil) == !inline, "inline or anchored")
}

func checkSize(r *docx.Run, w, h int64) {
	gw, gh, pw, ph := extents(runDrawing(r))
	if w*10 > h*12 {
		sym.Assert(gw == fullWidth, "width of a wide picture")
		sym.Assert(gh == fullWidth*h/w, "height of a wide picture")
	} else {
		sym.Assert(gw == fullWidth/2, "width of a picture")
		sym.Assert(gh == fullWidth*h/w/2, "height of a picture")
	}
	sym.Assert(pw == gw && ph == gh, "size of the picture in the drawing")
}

// C18_size: pictures of every size a format can hold.
func C18_size() {
	d := docx.New()
	var data []byte
	var w, h int64
	switch sym.Concrete(sym.Pick("format", 3)) {
	case 0:
		a, b := uint32(sym.Bits("w", 31)), uint32(sym.Bits("h", 31))
		data, w, h = png(a, b, 1), int64(a), int64(b)
	case 1:
		a, b := uint16(sym.Bits("w", 16)), uint16(sym.Bits("h", 16))
		data, w, h = gif(a, b, 1), int64(a), int64(b)
	case 2:
		a, b := uint16(sym.Bits("w", 16)), uint16(sym.Bits("h", 16))
		data, w, h = jpg(a, b, 1), int64(a), int64(b)
	}
	sym.Assume(w > 0 && h > 0)
	r, err := addPicture(d.AddParagraph(), data)
	sym.Assert(err == nil, "a picture cannot be added")
	checkSize(r, w, h)
	sym.Reach("size")
}

// C18_small: the height is the exact one of its ratio, however it is computed.
func C18_small() {
	d := docx.New()
	bits := 5
	if sym.Thorough() {
		bits = 6
	}
	a, b := uint16(sym.Bits("w", bits)), uint16(sym.Bits("h", bits))
	sym.Assume(a > 0 && b > 0)
	w, h := int64(a), int64(b)
	r, err := addPicture(d.AddParagraph(), gif(a, b, 1))
	sym.Assert(err == nil, "a picture cannot be added")
	gw, gh, pw, ph := extents(runDrawing(r))
	if 5*w > 6*h {
		sym.Assert(gw == fullWidth, "width of a wide picture")
	} else {
		sym.Assert(gw == fullWidth/2, "width of a picture")
	}
	sym.Assert(gh*w <= gw*h, "the height is too big")
	sym.Assert((gh+1)*w > gw*h, "the height is too small")
	sym.Assert(pw == gw && ph == gh, "size of the picture in the drawing")
	sym.Reach("small")
}

// C18_each: as C18_small with the cases split on the size, so that code that
// goes through floats, which the solver gives up on, is decided too.
func C18_each() {
	d := docx.New()
	n := 16
	if sym.Thorough() {
		n = 64
	}
	a, b := uint16(1+pickN("w", n)), uint16(1+pickN("h", n))
	w, h := int64(a), int64(b)
	r, err := addPicture(d.AddParagraph(), gif(a, b, 1))
	sym.Assert(err == nil, "a picture cannot be added")
	gw, gh, pw, ph := extents(runDrawing(r))
	full := int64(fullWidth)
	if 5*w <= 6*h {
		full /= 2
	}
	sym.Assert(gw == full, "width of a picture")
	sym.Assert(gh*w <= full*h, "the height is too big")
	sym.Assert((gh+1)*w > full*h, "the height is too small")
	sym.Assert(pw == gw && ph == gh, "size of the picture in the drawing")
	sym.Reach("each")
}

// C18_saved: the sizes, the kind and the bytes after save and open.
func C18_saved() {
	sizes := [][2]uint16{{1, 1}, {6, 5}, {5, 6}, {601, 500}, {600, 500}, {599, 500}, {65535, 1}, {1, 65535}, {65535, 65535}, {3, 7}, {1920, 1080}, {7, 3}}
	k := pickN("size", len(sizes))
	w, h := sizes[k][0], sizes[k][1]
	var data []byte
	switch pickN("format", 3) {
	case 0:
		data = png(uint32(w), uint32(h), 1)
	case 1:
		data = gif(w, h, 1)
	case 2:
		data = jpg(w, h, 1)
	}
	d := docx.New()
	var p *docx.Paragraph
	if sym.Bool("cell") {
		p = d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph()
	} else {
		p = d.AddParagraph()
	}
	way := sym.Concrete(sym.Pick("way", 4))
	var r *docx.Run
	var err error
	switch way {
	case 0:
		r, err = p.AddInlineDrawing(data)
	case 1:
		r, err = p.AddAnchorDrawing(data)
	case 2:
		r, err = p.AddInlineDrawingFrom(sym.File(data))
	case 3:
		r, err = p.AddAnchorDrawingFrom(sym.File(data))
	}
	sym.Assert(err == nil, "a picture cannot be added")
	for i := 0; i < 2; i++ {
		checkSize(r, int64(w), int64(h))
		checkKind(r, way%2 == 0)
		sym.Assert(bytes.Equal(mediaOf(d, embedOf(r)), data), "bytes of the picture")
		d = Reopen(d)
		if t, ok := d.Document.Body.Items[0].(*docx.Table); ok {
			p = t.TableRows[0].TableCells[0].Paragraphs[0]
		} else {
			p = d.Document.Body.Items[0].(*docx.Paragraph)
		}
		r = p.Children[0].(*docx.Run)
	}
	sym.Reach("saved")
}

// mediaOf is the content a relationship id refers to.
func mediaOf(d *docx.Docx, id string) []byte {
	t, err := d.ReferTarget(id)
	sym.Assert(err == nil, "the relationship of a picture")
	for i := len(t) - 1; i >= 0; i-- {
		if t[i] == '/' {
			t = t[i+1:]
			break
		}
	}
	m := d.Media(t)
	sym.Assert(m != nil, "the media of a picture")
	return m.Data
}

// C18_errors: what is no picture, or an empty one, changes nothing.
func C18_errors() {
	var data []byte
	file := true
	second, more := false, false
	what := pickN("what", 6)
	if what > 0 {
		second, more = sym.Bool("second"), sym.Bool("more")
	}
	switch what {
	case 0: // anything short
		n := 9
		if sym.Thorough() {
			n = 16
		}
		data = []byte(sym.Str("b", 0, n))
	case 1: // a picture that ends too early
		full := png(2, 3, 1)
		data = full[:pickN("n", 24)]
	case 2:
		full := gif(2, 3, 1)
		data = full[:pickN("n", 10)]
	case 3:
		full := jpg(2, 3, 1)
		data = full[:pickN("n", 19)]
	case 4: // no extent
		v := uint16(sym.Bits("v", 16))
		w, h := v, uint16(0)
		if sym.Bool("tall") {
			w, h = h, w
		}
		switch pickN("format", 3) {
		case 0:
			data = png(uint32(w), uint32(h), 1)
		case 1:
			data = gif(w, h, 1)
		case 2:
			data = jpg(w, h, 1)
		}
	case 5: // no such file
		file = false
	}
	d, twin := docx.New(), docx.New()
	p, q := d.AddParagraph(), twin.AddParagraph()
	if second {
		if _, err := p.AddInlineDrawing(png(1, 2, 3)); err != nil {
			panic(err)
		}
		if _, err := q.AddInlineDrawing(png(1, 2, 3)); err != nil {
			panic(err)
		}
	}
	var err error
	var r *docx.Run
	if file {
		r, err = addPicture(p, data)
	} else if sym.Bool("inline") {
		r, err = p.AddInlineDrawingFrom("/nonexistent/file")
	} else {
		r, err = p.AddAnchorDrawingFrom("/nonexistent/file")
	}
	sym.Assert(err != nil, "what is no picture was added")
	sym.Assert(r == nil, "a run for what is no picture")
	sym.Assert(len(p.Children) == len(q.Children), "a failure changes the document")
	add := func(p *docx.Paragraph) {
		if _, err := p.AddInlineDrawing(gif(1, 2, 4)); err != nil {
			panic(err)
		}
		p.AddLink("text", "target")
	}
	if more {
		add(p)
		add(q)
	}
	sym.Assert(samePackage(Save(d), Save(twin)), "a failure changes the document")
	sym.Reach("errors")
}
