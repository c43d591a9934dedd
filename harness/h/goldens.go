package h

import (
	"reflect"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

// goldenKinds are the body items that the committed reference documents
// (golden.go) describe.
var goldenKinds = []string{"para", "section", "table", "inline", "anchor", "picture", "shape", "canvas", "group", "groupshape"}

// goldenItem is the model of a reference document.
func goldenItem(kind string, g *gen) interface{} {
	switch kind {
	case "para":
		x := &docx.Paragraph{}
		fillOf(g, x)
		return x
	case "section":
		x := &docx.SectPr{}
		fillOf(g, x)
		return x
	case "table":
		x := &docx.Table{}
		fillOf(g, x)
		return x
	case "inline":
		x := &docx.WPInline{}
		g.skip = map[string]bool{"GraphicData": true}
		fillOf(g, x)
		return drawingPara(&docx.Drawing{Inline: x})
	case "anchor":
		x := &docx.WPAnchor{}
		g.skip = map[string]bool{"GraphicData": true}
		fillOf(g, x)
		return drawingPara(&docx.Drawing{Anchor: x})
	case "picture":
		x := &docx.Picture{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Pic: x})
	case "shape":
		x := &docx.WordprocessingShape{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Shape: x})
	case "canvas":
		x := &docx.WordprocessingCanvas{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Canvas: x})
	case "group":
		x := &docx.WordprocessingGroup{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Group: x})
	case "groupshape":
		x := &docx.WPGGroupShape{}
		fillOf(g, x)
		return inlineOf(&docx.AGraphicData{Group: &docx.WordprocessingGroup{Elems: []interface{}{x}}})
	}
	panic(kind)
}

const docHead = `<?xml version="1.0" encoding="UTF-8"?>
<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:wp="http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing" xmlns:wps="http://schemas.microsoft.com/office/word/2010/wordprocessingShape" xmlns:wpc="http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas" xmlns:wpg="http://schemas.microsoft.com/office/word/2010/wordprocessingGroup" xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture" xmlns:x="urn:x"><w:body>`
const docTail = `</w:body></w:document>`

// part is one file of a package.
type part struct{ name, data string }

const relsPart = "word/_rels/document.xml.rels"

func relsXML(inner string) string {
	return `<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">` + inner + `</Relationships>`
}

// bodyXML is a package with the body content.
func bodyXML(inner string) []byte {
	return mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", docHead + inner + docTail})
}

// sample is a reference text: symbolic leaf values are put in place of their
// markers.
func substitute(xml string, leaf int, num bool, val string) string {
	m := "v" + strconv.Itoa(leaf)
	if num {
		m = strconv.Itoa(1000 + leaf)
	}
	for _, q := range [][2]string{{`"`, `"`}, {`>`, `<`}} {
		if l := strings.Split(xml, q[0]+m+q[1]); len(l) > 1 {
			return strings.Join(l, q[0]+val+q[1])
		}
	}
	sym.Assume(false) // a flag: it has no marker
	return ""
}

// substituteAll puts all values in place of their markers.
func substituteAll(xml string, all map[string]string) string {
	out, from := "", 0
	for i := 0; i < len(xml); i++ {
		if xml[i] != '"' && xml[i] != '>' {
			continue
		}
		j := i + 1
		for j < len(xml) && (xml[j] == 'v' || xml[j] >= '0' && xml[j] <= '9') {
			j++
		}
		if j == len(xml) || xml[j] != '"' && xml[j] != '<' {
			continue
		}
		if v, ok := all[xml[i+1:j]]; ok {
			out += xml[from:i+1] + v
			from = j
		}
	}
	return out + xml[from:]
}

// readGolden: a reference document is read as the model it describes, with
// any value of any one leaf.
func readGolden(kinds ...string) {
	kind := kinds[pickN("kind", len(kinds))]
	xml := goldenXML[kind]
	if sym.Bool("reversed") {
		xml = goldenRev[kind]
	}
	dry := newGen()
	goldenItem(kind, dry)
	g := newGen()
	g.digits = true
	var want interface{}
	if sym.Bool("all") {
		g.words = anyWords()
		want = goldenItem(kind, g)
		xml = substituteAll(xml, g.all)
	} else {
		g.symAt = pickN("leaf.at", dry.leaf)
		want = goldenItem(kind, g)
		xml = substitute(xml, g.symAt, g.symNum, g.symText)
	}
	got := Open(bodyXML(xml))
	sym.Assert(len(got.Document.Body.Items) == 1, "number of body items")
	same(reflect.ValueOf(got.Document.Body.Items[0]), reflect.ValueOf(want), "item")
	sym.Reach("read")
}

// GoldenKinds and GoldenItem serve tools/golden.
func GoldenKinds() []string { return goldenKinds }

func GoldenItem(kind string) interface{} { return goldenItem(kind, newGen()) }
