package h

import (
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C07_names"] = C07_names
	All["C07_words"] = C07_words
	All["C07_opened"] = C07_opened
	All["C07_new"] = C07_new
	All["C07_content"] = C07_content
}

const mediaDir = "word/media/"

// mediaParts are the media of a saved package.
func mediaParts(b []byte) (ps []part) {
	for _, p := range unzip(b) {
		if strings.HasPrefix(p.name, mediaDir) {
			ps = append(ps, part{p.name[len(mediaDir):], p.data})
		}
	}
	return
}

// checkMedia: the document and its package have exactly the media.
func checkMedia(d *docx.Docx, want []part) []byte {
	for _, w := range want {
		m := d.Media(w.name)
		sym.Assert(m != nil, "a media file is lost")
		sym.Assert(m.Name == w.name, "name of a media file")
		sym.Assert(string(m.Data) == w.data, "bytes of a media file")
	}
	sym.Assert(d.Media("none.png") == nil, "lookup of an unknown media file")
	b := Save(d)
	ps := mediaParts(b)
	sym.Assert(len(ps) == len(want), "number of media files in the package")
	for _, w := range want {
		n := 0
		for _, p := range ps {
			if p.name == w.name {
				n++
				sym.Assert(p.data == w.data, "bytes of a media file in the package")
			}
		}
		sym.Assert(n == 1, "a media file is not in the package")
	}
	return b
}

// addPic adds a picture of any format and returns its media file.
func addPic(d *docx.Docx, p *docx.Paragraph, last byte) part {
	var data []byte
	if sym.Bool("gif") {
		data = gif(3, 2, last)
	} else {
		data = png(2, 3, last)
	}
	var r *docx.Run
	var err error
	if len(d.Document.Body.Items)%2 == 0 {
		r, err = p.AddAnchorDrawing(data)
	} else {
		r, err = p.AddInlineDrawing(data)
	}
	sym.Assert(err == nil, "a picture is refused")
	t, err := d.ReferTarget(embedOf(r))
	sym.Assert(err == nil && strings.HasPrefix(t, "media/"), "target of a picture")
	return part{t[len("media/"):], string(data)}
}

func distinctNames(ps []part) {
	for i := range ps {
		for j := 0; j < i; j++ {
			sym.Assert(ps[i].name != ps[j].name, "two pictures under one name")
		}
	}
}

// C07_opened: pictures added to a package with any media.
func C07_opened() {
	names := []string{"image1.png", "image100001.png", "image100002.png", "image100001.gif", "sub/a.png", "图.jpg"}
	n := sym.Concrete(sym.Int("n", 0, 2))
	ps := []part{{relsPart, relsXML("")}, {"word/document.xml", docHead + `<w:p/>` + docTail}}
	if sym.Bool("anchor") {
		ps[1].data = docHead + `<w:p/><w:p/>` + docTail
	}
	var want []part
	for i := 0; i < n; i++ {
		name := names[pickN("name", len(names))]
		data := sym.Str("data", 0, 1)
		want = append(want, part{name, data})
	}
	if n == 2 {
		sym.Assume(want[0].name != want[1].name)
	}
	var m []part
	for _, w := range want {
		m = append(m, part{mediaDir + w.name, w.data})
	}
	if sym.Bool("mediaFirst") {
		ps = append(m, ps...)
	} else {
		ps = append(ps, m...)
	}
	d := Open(mkZip(ps...))
	k := sym.Concrete(sym.Int("pics", 0, 2))
	for i := 0; i < k; i++ {
		want = append(want, addPic(d, paras(d)[0], sym.Byte("last")))
	}
	distinctNames(want)
	d = Open(checkMedia(d, want))
	if k == 1 {
		want = append(want, addPic(d, paras(d)[0], 7))
		distinctNames(want)
	}
	checkMedia(d, want)
	sym.Reach("opened")
}

// C07_new: pictures of a new document, also the same one twice.
func C07_new() {
	d := docx.New()
	p := d.AddParagraph()
	var want []part
	if sym.Bool("anchor") {
		d.AddParagraph()
	}
	k := sym.Concrete(sym.Int("pics", 1, 3))
	for i := 0; i < k; i++ {
		want = append(want, addPic(d, p, sym.Byte("last")))
	}
	distinctNames(want)
	d = Open(checkMedia(d, want))
	checkMedia(d, want)
	sym.Reach("new")
}

// C07_content: any bytes of a media file.
func C07_content() {
	n := 6
	if sym.Thorough() {
		n = 12
	}
	data := sym.Str("data", 0, n)
	d := Open(mkZip(part{mediaDir + "m", data}, part{relsPart, relsXML("")}, part{"word/document.xml", docHead + docTail}))
	d = Open(checkMedia(d, []part{{"m", data}}))
	checkMedia(d, []part{{"m", data}})
	sym.Reach("content")
}

// symFile is any short file name of printable characters; with an ending a
// name of a picture.
func symFile(name string, end string) string {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	s := sym.Str(name, 1, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '/' && s[i] != '\\' && s[i] != ':')
	}
	if end == "" {
		sym.Assume(s != "." && s != "..")
	}
	return s + end
}

// twoFiles are two media with any different names.
func twoFiles() []part {
	end := sym.Choice("end", "", ".png")
	a, b := symFile("a", end), symFile("b", end)
	sym.Assume(a != b)
	return []part{{a, sym.Str("a.data", 0, 1)}, {b, "B"}}
}

// C07_names: two media with any names, to which a picture is added.
func C07_names() {
	want := twoFiles()
	ps := []part{{relsPart, relsXML("")}, {"word/document.xml", docHead + `<w:p/>` + docTail}}
	for _, w := range want {
		ps = append(ps, part{mediaDir + w.name, w.data})
	}
	d := Open(mkZip(ps...))
	want = append(want, addPic(d, paras(d)[0], 7))
	distinctNames(want)
	d = Open(checkMedia(d, want))
	checkMedia(d, want)
	sym.Reach("names")
}

// C07_words: a media with any longer name, in a package or given.
func C07_words() {
	name := partWord()
	sym.Assume(name != "none.png")
	if sym.Bool("folder") {
		name = "a/" + name
	}
	want := []part{{name, "data"}}
	var d *docx.Docx
	if sym.Bool("loaded") {
		d = docx.LoadBodyItems([]interface{}{&docx.Paragraph{}}, []docx.Media{{Name: name, Data: []byte("data")}})
	} else {
		d = Open(mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", docHead + `<w:p/>` + docTail}, part{mediaDir + name, "data"}))
	}
	want = append(want, addPic(d, d.AddParagraph(), 7))
	distinctNames(want)
	d = Open(checkMedia(d, want))
	checkMedia(d, want)
	sym.Reach("word")
}
