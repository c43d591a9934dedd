package h

import (
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C09_kinds"] = C09_kinds
	All["C09_media"] = C09_media
	All["C09_twice"] = C09_twice
}

// refVal is what a link or picture refers to.
type refVal struct{ kind, val string }

// refsIn lists what the links and pictures of x refer to in the document.
func refsIn(d *docx.Docx, x interface{}) (rs []refVal) {
	add := func(xs ...interface{}) {
		for _, x := range xs {
			rs = append(rs, refsIn(d, x)...)
		}
	}
	pic := func(id string) {
		t, err := d.ReferTarget(id)
		if err != nil {
			rs = append(rs, refVal{"no picture", ""})
			return
		}
		m := d.Media(strings.TrimPrefix(t, "media/"))
		if m == nil {
			rs = append(rs, refVal{"no media", ""})
			return
		}
		rs = append(rs, refVal{"picture", string(m.Data)})
	}
	graphic := func(g *docx.AGraphic) {
		if g == nil || g.GraphicData == nil {
			return
		}
		gd := g.GraphicData
		if gd.Pic != nil {
			add(gd.Pic)
		}
		if gd.Shape != nil {
			add(gd.Shape)
		}
		if gd.Canvas != nil {
			add(gd.Canvas)
		}
		if gd.Group != nil {
			add(gd.Group)
		}
	}
	switch o := x.(type) {
	case *docx.Paragraph:
		add(o.Children...)
	case *docx.Table:
		for _, r := range o.TableRows {
			for _, c := range r.TableCells {
				for _, p := range c.Paragraphs {
					add(p)
				}
			}
		}
	case *docx.Run:
		add(o.Children...)
	case *docx.Hyperlink:
		t, err := d.ReferTarget(o.ID)
		if err != nil {
			rs = append(rs, refVal{"anchor", o.ID})
		} else {
			rs = append(rs, refVal{"link", t})
		}
		add(&o.Run)
	case *docx.Drawing:
		if o.Inline != nil {
			graphic(o.Inline.Graphic)
		}
		if o.Anchor != nil {
			graphic(o.Anchor.Graphic)
		}
	case *docx.Picture:
		if o.BlipFill != nil {
			pic(o.BlipFill.Blip.Embed)
		}
	case *docx.ShapeProperties:
		if o != nil && o.BlipFill != nil && o.BlipFill.Blip != nil {
			pic(o.BlipFill.Blip.Embed)
		}
	case *docx.WordprocessingShape:
		add(o.SpPr)
		if o.TextBox != nil && o.TextBox.Content != nil {
			for i := range o.TextBox.Content.Paragraphs {
				add(&o.TextBox.Content.Paragraphs[i])
			}
		}
	case *docx.WordprocessingCanvas:
		add(o.Items...)
	case *docx.WordprocessingGroup:
		add(o.GroupShapeProperties)
		add(o.Elems...)
	case *docx.WPGGroupShape:
		add(o.GroupShapeProperties)
		add(o.Elems...)
	}
	return
}

func refsOf(d *docx.Docx) (rs []refVal) {
	for _, it := range d.Document.Body.Items {
		rs = append(rs, refsIn(d, it)...)
	}
	return
}

func sameRefs(a, b []refVal, what string) {
	sym.Assert(len(a) == len(b), what+": number of links and pictures")
	for i := range a {
		sym.Assert(a[i].kind == b[i].kind, what+": kind of a reference")
		sym.Assert(a[i].val == b[i].val, what+": target of a reference")
	}
}

// copied are the ids that a copy has of its own.
var copied = []string{"Hyperlink.ID", "ABlip.Embed", "WPDocPr.ID"}
var copiedPic = append(append([]string{}, copied...), "Picture.NonVisualPicProperties", "WPInline.DocPr", "WPAnchor.DocPr")

// uniqueIDs: relationship ids and media are unique.
func uniqueIDs(d *docx.Docx) {
	rs := relsOf(d)
	for i := range rs {
		for j := 0; j < i; j++ {
			sym.Assert(rs[i].ID != rs[j].ID, "relationship ids are not unique")
		}
	}
}

// linkRels gives every relationship id of the text a target.
func linkRels(xml string) (rels string, media []part) {
	for _, a := range []string{` r:id="`, ` r:embed="`} {
		for i, s := range strings.Split(xml, a)[1:] {
			id := s[:strings.IndexByte(s, '"')]
			if strings.Contains(rels, `"`+id+`"`) {
				continue
			}
			if a == ` r:id="` {
				rels += `<Relationship Id="` + id + `" Type="h" Target="http://` + strconv.Itoa(i) + `" TargetMode="External"/>`
				continue
			}
			name := "image" + strconv.Itoa(i+1) + ".png"
			rels += `<Relationship Id="` + id + `" Type="i" Target="media/` + name + `"/>`
			media = append(media, part{mediaDir + name, "M" + name})
		}
	}
	return
}

// kindPackage is a package whose body is the reference document of a kind,
// with any value of any one leaf.
func kindPackage(kind string, leaf int) []byte {
	xml := goldenXML[kind]
	rels, media := linkRels(xml)
	if leaf >= 0 {
		g := newGen()
		g.symAt = leaf
		g.digits = true
		goldenItem(kind, g)
		xml = substitute(xml, g.symAt, g.symNum, g.symText)
	}
	return mkZip(append([]part{{relsPart, relsXML(rels)}, {"word/document.xml", docHead + xml + docTail}}, media...)...)
}

// linkRelLeaf tells whether the leaf is a relationship id.
func linkLeaf(kind string, leaf int) bool {
	m := `="v` + strconv.Itoa(leaf) + `"`
	xml := goldenXML[kind]
	i := strings.Index(xml, m)
	return i >= 0 && (strings.HasSuffix(xml[:i], "r:id") || strings.HasSuffix(xml[:i], "r:embed"))
}

// pickLeaf is any leaf of the kind that is no relationship id.
func pickLeaf(kind string) int {
	dry := newGen()
	goldenItem(kind, dry)
	leaf := pickN("leaf.at", dry.leaf)
	sym.Assume(!linkLeaf(kind, leaf))
	return leaf
}

// C09_kinds: an item of any kind is copied as it is, with any value of any
// leaf.
func C09_kinds() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	b := kindPackage(kind, pickLeaf(kind))
	src, src2 := Open(b), Open(b)
	d := docx.New()
	p := d.AddParagraph()
	p.AddText("first")
	p.AddLink("l", "first-target")
	old := refsOf(d)
	d.AppendFile(src)
	it := d.Document.Body.Items
	sym.Assert(len(it) == 2, "number of body items")
	sym.Assert(it[0] == p && p.String() == "first[l](first-target)", "the existing content changed")
	fields := copied
	if kind == "picture" {
		fields = copiedPic
	}
	sameBut(it[1], src2.Document.Body.Items[0], fields...)
	sameBut(src.Document.Body.Items[0], src2.Document.Body.Items[0])
	sameRefs(refsOf(src), refsOf(src2), "source")
	sameRefs(refsOf(d), append(old, refsOf(src2)...), "receiver")
	uniqueIDs(d)
	sym.Reach("kinds")
}

const picGraphic = `<wp:extent cx="1" cy="2"/><wp:docPr id="7" name="n"/><a:graphic><a:graphicData uri="u"><pic:pic><pic:blipFill><a:blip r:embed="%E"/></pic:blipFill></pic:pic></a:graphicData></a:graphic>`

const picFill = `<a:blipFill><a:blip r:embed="%E"/></a:blipFill>`

// mediaItems are body items with links and pictures; %L and %E stand for the
// relationship ids.
var mediaItems = []string{
	`<w:p><w:r><w:t>t</w:t></w:r><w:hyperlink r:id="%L"><w:r><w:instrText>link</w:instrText></w:r></w:hyperlink><w:r><w:drawing><wp:inline>` + picGraphic + `</wp:inline></w:drawing></w:r></w:p>`,
	`<w:tbl><w:tr><w:tc><w:p><w:r><w:drawing><wp:anchor>` + picGraphic + `</wp:anchor></w:drawing></w:r></w:p><w:p/></w:tc><w:tc><w:p><w:hyperlink r:id="%L"><w:r><w:t>x</w:t></w:r></w:hyperlink></w:p></w:tc></w:tr></w:tbl>`,
	`<w:p><w:r><w:drawing><wp:inline><wp:docPr id="9" name="s"/><a:graphic><a:graphicData uri="u"><wpc:wpc><pic:pic><pic:blipFill><a:blip r:embed="%E"/></pic:blipFill></pic:pic><wps:wsp><wps:txbx><w:txbxContent><w:p><w:hyperlink r:id="%L"><w:r/></w:hyperlink></w:p></w:txbxContent></wps:txbx></wps:wsp></wpc:wpc></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	`<w:p><w:r><w:drawing><wp:anchor><wp:docPr id="9" name="s"/><a:graphic><a:graphicData uri="u"><wpg:wgp><wpg:grpSp><pic:pic><pic:blipFill><a:blip r:embed="%E"/></pic:blipFill></pic:pic></wpg:grpSp><pic:pic><pic:blipFill><a:blip r:embed="%E"/></pic:blipFill></pic:pic></wpg:wgp></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r></w:p>`,
	`<w:p><w:r><w:drawing><wp:inline><a:graphic><a:graphicData uri="u"><wps:wsp><wps:txbx><w:txbxContent><w:p><w:hyperlink r:id="%L"><w:r/></w:hyperlink></w:p></w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	`<w:p><w:hyperlink w:anchor="mark"><w:r><w:instrText>here</w:instrText></w:r></w:hyperlink><w:r><w:br/><w:tab/></w:r></w:p>`,
	`<w:sectPr><w:pgSz w:w="7" w:h="8"/></w:sectPr>`,
	// a picture fill of a shape, of a group and of a shape in a group
	`<w:p><w:r><w:drawing><wp:anchor><a:graphic><a:graphicData uri="u"><wps:wsp><wps:spPr>` + picFill + `</wps:spPr></wps:wsp></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r><w:r><w:drawing><wp:inline><a:graphic><a:graphicData uri="u"><wpg:wgp><wpg:grpSpPr>` + picFill + `</wpg:grpSpPr><wpg:grpSp><wpg:grpSpPr>` + picFill + `</wpg:grpSpPr><wps:wsp><wps:spPr>` + picFill + `</wps:spPr></wps:wsp></wpg:grpSp></wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`,
	// drawings without media: a picture that is linked, one without fill, a chart, and one without graphic
	`<w:p><w:r><w:drawing><wp:inline>` + strings.ReplaceAll(picGraphic, `r:embed="%E"`, `cstate="print"`) + `</wp:inline></w:drawing></w:r><w:r><w:drawing><wp:anchor><wp:docPr id="5" name="x"/><a:graphic><a:graphicData uri="u"><pic:pic><pic:spPr/></pic:pic></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r><w:r><w:drawing><wp:inline><wp:docPr id="7" name="c"/><a:graphic><a:graphicData uri="chart"/></a:graphic></wp:inline></w:drawing></w:r><w:r><w:drawing><wp:anchor><wp:docPr id="8" name="d"/></wp:anchor></w:drawing></w:r></w:p>`,
}

// mediaDoc is a package with items that have links and pictures.
func mediaDoc(linkID, target, embedID, media, data string, items ...int) []byte {
	xml := ""
	for _, i := range items {
		xml += mediaItems[i]
	}
	xml = strings.ReplaceAll(strings.ReplaceAll(xml, "%L", linkID), "%E", embedID)
	rels := `<Relationship Id="` + linkID + `" Type="` + docx.REL_HYPERLINK + `" Target="` + target + `" TargetMode="External"/>` +
		`<Relationship Id="` + embedID + `" Type="` + docx.REL_IMAGE + `" Target="media/` + media + `"/>`
	return mkZip(part{relsPart, relsXML(rels)}, part{"word/document.xml", docHead + xml + docTail}, part{mediaDir + media, data})
}

// symTarget is a target that XML shows as it is.
func symTarget(name string) string {
	s := sym.Str(name, 0, 1)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= 'a' && s[i] <= 'z')
	}
	return "http://" + s
}

// receiver is an existing document whose ids and names collide with those of
// the source.
func receiver() *docx.Docx {
	if sym.Bool("opened") {
		return Open(mediaDoc("rId1", "http://own", "rId4", "image1.png", "own", 0))
	}
	d := docx.New()
	p := d.AddParagraph()
	p.AddLink("own", "http://own")
	if _, err := p.AddInlineDrawing(png(2, 3, 1)); err != nil {
		panic(err)
	}
	return d
}

// C09_media: links and pictures of any item, with colliding ids and names.
func C09_media() {
	i, j := pickN("item", len(mediaItems)), pickN("item", len(mediaItems))
	media := sym.Choice("media", "image1.png", "image100001.png", "Image2.GIF", "noext")
	data := sym.Str("data", 0, 1)
	link := sym.Choice("link", "rId4", "rId1", "link9")
	b := mediaDoc(link, symTarget("target"), "rId5", media, data, i, j)
	src := Open(b)
	d := receiver()
	oldRefs, oldRels := refsOf(d), relsOf(d)
	n := len(d.Document.Body.Items)
	d.AppendFile(src)
	src2 := Open(b)
	for k := 0; k < 2; k++ {
		it := d.Document.Body.Items
		sym.Assert(len(it) == n+2, "number of body items")
		for l := 0; l < 2; l++ {
			sameBut(it[n+l], src2.Document.Body.Items[l], copiedPic...)
		}
		sameRefs(refsOf(d), append(append([]refVal{}, oldRefs...), refsOf(src2)...), "receiver")
		uniqueIDs(d)
		rs := relsOf(d)
		sym.Assert(len(rs) >= len(oldRels), "an existing relationship is lost")
		for m, r := range oldRels {
			sym.Assert(rs[m] == r, "an existing relationship changed")
		}
		if k == 0 {
			sameItems(src.Document.Body.Items, src2.Document.Body.Items)
			sameRefs(refsOf(src), refsOf(src2), "source")
			d = Reopen(d)
		}
	}
	sym.Reach("media")
}

// C09_twice: appending several documents, also one twice.
func C09_twice() {
	a := Open(mediaDoc("rId4", symTarget("a"), "rId5", "image1.png", "A", 0))
	b := Open(mediaDoc("rId4", "http://b", "rId5", "image1.png", sym.Str("b", 0, 1), 1, 6))
	d := docx.New()
	src := []*docx.Docx{a, b}
	var want []refVal
	n := 0
	k := sym.Concrete(sym.Int("appends", 1, 3))
	for i := 0; i < k; i++ {
		s := src[pickN("source", 2)]
		want = append(want, refsOf(s)...)
		n += len(s.Document.Body.Items)
		d.AppendFile(s)
	}
	sym.Assert(len(a.Document.Body.Items) == 1 && len(b.Document.Body.Items) == 2, "the source changed")
	for i := 0; i < 2; i++ {
		sym.Assert(len(d.Document.Body.Items) == n, "number of body items")
		sameRefs(refsOf(d), want, "receiver")
		uniqueIDs(d)
		d = Reopen(d)
	}
	sym.Reach("twice")
}
