package h

import (
	"reflect"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C04_inline"] = C04_inline
	All["C04_anchor"] = C04_anchor
	All["C04_picture"] = C04_picture
	All["C04_shape"] = C04_shape
	All["C04_canvas"] = C04_canvas
	All["C04_group"] = C04_group
	All["C04_groupshape"] = C04_groupshape
	All["C04_resize"] = C04_resize
	All["C04_built"] = C04_built
}

// bodyOf is a new document with the items.
func bodyOf(items ...interface{}) *docx.Docx {
	d := docx.New()
	d.Document.Body.Items = append(d.Document.Body.Items, items...)
	return d
}

func drawingPara(dr *docx.Drawing) *docx.Paragraph {
	return &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{dr}}}}
}

func inlineOf(gd *docx.AGraphicData) *docx.Paragraph {
	return drawingPara(&docx.Drawing{Inline: &docx.WPInline{Graphic: &docx.AGraphic{GraphicData: gd}}})
}

func roundtrip(items ...interface{}) {
	d2 := Reopen(bodyOf(items...))
	sameItems(items, d2.Document.Body.Items)
	sym.Reach("compared")
}

// vary round-trips the paragraph mk makes of a filled x, in all variants.
func vary(mk func(g *gen) interface{}) {
	variants(func(g *gen) {
		it := mk(g)
		if g.hit {
			roundtrip(it)
		}
	})
}

func fillOf(g *gen, x interface{}) { g.fill(reflect.ValueOf(x).Elem()) }

func smallPic() *docx.Picture {
	return &docx.Picture{SpPr: &docx.PICSpPr{}}
}

func C04_inline() {
	vary(func(g *gen) interface{} {
		in := &docx.WPInline{}
		g.skip = map[string]bool{"GraphicData": true}
		fillOf(g, in)
		if in.Graphic != nil {
			in.Graphic.GraphicData = &docx.AGraphicData{URI: g.str(), Pic: smallPic()}
		}
		return drawingPara(&docx.Drawing{Inline: in})
	})
}

func C04_anchor() {
	vary(func(g *gen) interface{} {
		an := &docx.WPAnchor{}
		g.skip = map[string]bool{"GraphicData": true}
		fillOf(g, an)
		if an.Graphic != nil {
			an.Graphic.GraphicData = &docx.AGraphicData{URI: g.str(), Pic: smallPic()}
		}
		return drawingPara(&docx.Drawing{Anchor: an})
	})
}

func C04_picture() {
	vary(func(g *gen) interface{} {
		x := &docx.Picture{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Pic: x})
	})
}

func C04_shape() {
	vary(func(g *gen) interface{} {
		x := &docx.WordprocessingShape{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Shape: x})
	})
}

func C04_canvas() {
	vary(func(g *gen) interface{} {
		x := &docx.WordprocessingCanvas{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Canvas: x})
	})
}

func C04_group() {
	vary(func(g *gen) interface{} {
		x := &docx.WordprocessingGroup{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Group: x})
	})
}

func C04_groupshape() {
	vary(func(g *gen) interface{} {
		x := &docx.WPGGroupShape{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Group: &docx.WordprocessingGroup{Elems: []interface{}{x}}})
	})
}

// sizable is a drawing with everything the model holds for it, but for the
// parts left out on the way from the drawing to its picture.
func sizable(anchor bool, content, left int, extent bool) (*docx.Drawing, *docx.WPExtent, *docx.AExt) {
	gd := &docx.AGraphicData{URI: "u"}
	switch content {
	case 0:
		gd.Pic = &docx.Picture{}
		fillOf(newGen(), gd.Pic)
	case 1:
		gd.Shape = &docx.WordprocessingShape{}
		fillOf(newGen(), gd.Shape)
	case 2:
		gd.Canvas = &docx.WordprocessingCanvas{}
		fillOf(newGen(), gd.Canvas)
	case 3:
		gd.Group = &docx.WordprocessingGroup{}
		fillOf(newGen(), gd.Group)
	}
	gr := &docx.AGraphic{XMLA: "x", GraphicData: gd}
	var ext *docx.AExt
	switch left {
	case 0:
		if content == 0 {
			ext = &gd.Pic.SpPr.Xfrm.Ext
		}
	case 1:
		if content == 0 {
			gd.Pic.SpPr = nil
		}
	case 2:
		gr.GraphicData = nil
	case 3:
		gr = nil
	}
	g := newGen()
	g.skip = map[string]bool{"Graphic": true}
	if anchor {
		x := &docx.WPAnchor{}
		fillOf(g, x)
		x.Graphic = gr
		if !extent {
			x.Extent = nil
		}
		return &docx.Drawing{Anchor: x}, x.Extent, ext
	}
	x := &docx.WPInline{}
	fillOf(g, x)
	x.Graphic = gr
	if !extent {
		x.Extent = nil
	}
	return &docx.Drawing{Inline: x}, x.Extent, ext
}

// C04_resize: resizing sets the extent of the drawing and of its picture, to
// any value, and nothing else.
func C04_resize() {
	anchor, extent := sym.Bool("anchor"), sym.Bool("extent")
	content, left := pickN("content", 4), pickN("left", 4)
	dr, _, _ := sizable(anchor, content, left, extent)
	want, e, pe := sizable(anchor, content, left, extent)
	w, h := sym.Int64("w"), sym.Int64("h")
	if anchor {
		dr.Anchor.Size(w, h)
	} else {
		dr.Inline.Size(w, h)
	}
	if e != nil {
		e.CX, e.CY = w, h
	}
	if pe != nil {
		pe.CX, pe.CY = w, h
	}
	same(reflect.ValueOf(dr), reflect.ValueOf(want), "drawing")
	sym.Reach("resized")
	if !sym.Bool("saved") {
		return
	}
	if anchor {
		dr.Anchor.Size(w, 7)
	} else {
		dr.Inline.Size(7, h)
	}
	roundtrip(drawingPara(dr))
}

// C04_built: a shape has the extent, name, geometry and line it was asked for,
// and keeps them.
func C04_built() {
	anchor := sym.Bool("anchor")
	saved := sym.Bool("saved")
	w, h := int64(7), int64(5)
	name, mode, geom := "shape", "auto", "rect"
	switch pickN("which", 5) {
	case 0:
		w = sym.Int64("w")
	case 1:
		h = sym.Int64("h")
	case 2:
		name = anyArg("name")
	case 3:
		mode = anyArg("mode")
	case 4:
		geom = anyArg("geom")
	}
	var ln *docx.ALine
	if sym.Bool("line") {
		ln = &docx.ALine{}
		fillOf(newGen(), ln)
	}
	d := docx.New()
	p := d.AddParagraph()
	p.AddText("before")
	var r *docx.Run
	if anchor {
		r = p.AddAnchorShape(w, h, name, mode, geom, ln)
	} else {
		r = p.AddInlineShape(w, h, name, mode, geom, ln)
	}
	sym.Assert(len(p.Children) == 2 && p.Children[1] == interface{}(r), "the shape is added at the end")
	check := func(r *docx.Run) {
		sym.Assert(len(r.Children) == 1, "one drawing")
		dr := r.Children[0].(*docx.Drawing)
		sym.Assert((dr.Anchor != nil) == anchor && (dr.Inline != nil) == !anchor, "kind of drawing")
		var e *docx.WPExtent
		var gr *docx.AGraphic
		nm := ""
		if anchor {
			e, gr, nm = dr.Anchor.Extent, dr.Anchor.Graphic, dr.Anchor.DocPr.Name
		} else {
			e, gr, nm = dr.Inline.Extent, dr.Inline.Graphic, dr.Inline.DocPr.Name
		}
		sym.Assert(e.CX == w && e.CY == h, "extent of the drawing")
		sym.Assert(len(nm) >= len(name) && nm[:len(name)] == name, "name of the drawing")
		s := gr.GraphicData.Shape
		sym.Assert(s.SpPr.Xfrm.Ext.CX == w && s.SpPr.Xfrm.Ext.CY == h, "extent of the shape")
		sym.Assert(s.SpPr.BWMode == mode && s.SpPr.PrstGeom.Prst == geom, "mode and geometry of the shape")
		same(reflect.ValueOf(s.SpPr.Line), reflect.ValueOf(ln), "line")
	}
	check(r)
	sym.Reach("built")
	if saved {
		items := d.Document.Body.Items
		d2 := Reopen(d)
		sameItems(items, d2.Document.Body.Items)
		check(paras(d2)[0].Children[1].(*docx.Run))
		sym.Reach("reopened")
	}
}
