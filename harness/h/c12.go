package h

import (
	"io"
	"io/fs"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C12_writer"] = C12_writer
	All["C12_template"] = C12_template
	All["C12_reader"] = C12_reader
	All["C12_truncated"] = C12_truncated
	All["C12_malformed"] = C12_malformed
	All["C12_count"] = C12_count
}

// faultWriter accepts limit bytes.
type faultWriter struct {
	limit, n int
	short    bool // one byte of the write that does not fit is taken
	keep     []byte
	err      error
}

// faultErr is an error that a reader or a destination fails with: some error,
// or one that also has a meaning of its own.
func faultErr(reader bool) error {
	switch pickN("error", 3) {
	case 1:
		if reader {
			return io.ErrUnexpectedEOF
		}
		return io.ErrShortWrite
	case 2:
		return io.EOF
	}
	return errFault
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.n+len(p) > w.limit {
		k := 0
		if w.short && len(p) > 1 {
			k = 1
		}
		w.n += k
		if w.err == nil {
			return k, errFault
		}
		return k, w.err
	}
	w.n += len(p)
	w.keep = append(w.keep, p...)
	return len(p), nil
}

// faultDoc is a document with a template file, media and content.
func faultDoc() *docx.Docx {
	x := uint32(1)
	b := make([]byte, 9000) // more than one buffer of the package
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	d := docx.New().UseTemplate("", []string{"a.txt"}, memFS{"a.txt": string(b)})
	p := d.AddParagraph()
	p.AddText("hello")
	if _, err := p.AddInlineDrawing(gif(3, 2, 1)); err != nil {
		panic(err)
	}
	return d
}

// C12_writer: the destination fails at any byte.
func C12_writer() {
	d := faultDoc()
	total := len(Save(d))
	k := sym.Int("at", 0, 1<<20)
	if !sym.Symbolic() {
		k %= total // packages are smaller when they are really compressed
	}
	sym.Assume(k < total)
	w := &faultWriter{limit: k, short: sym.Bool("short"), err: faultErr(false)}
	n, err := d.WriteTo(w)
	sym.Assert(err != nil, "a failure of the destination is not reported")
	sym.Assert(n == int64(w.n), "number of bytes written")
	sym.Reach("writer")
}

// C12_count: the number of bytes is reported.
func C12_count() {
	d := docx.New()
	if sym.Bool("template") {
		d = faultDoc()
	}
	d.AddParagraph().AddText(symText("s", 0, 1))
	w := &faultWriter{limit: 1 << 30}
	n, err := d.WriteTo(w)
	sym.Assert(err == nil, "saving fails")
	sym.Assert(n == int64(w.n), "number of bytes written")
	w2 := &faultWriter{limit: 1 << 30}
	m, err := io.Copy(w2, d)
	sym.Assert(err == nil && m == int64(w2.n), "number of bytes copied")
	Open(w2.keep)
	sym.Reach("count")
}

// faultFS fails to open or read one file.
type faultFS struct {
	memFS
	bad  string
	open bool
	at   int
	err  error
}

func (f faultFS) Open(name string) (fs.File, error) {
	if name == f.bad && f.open {
		return nil, f.err
	}
	x, err := f.memFS.Open(name)
	if err == nil && name == f.bad {
		x.(*memFile).fail, x.(*memFile).err = f.at, f.err
	}
	return x, err
}

// C12_template: a template file cannot be opened, or fails while it is read.
func C12_template() {
	names := []string{"a", "b/c", "d"}
	pre := ""
	tmpl := ""
	if sym.Bool("named") {
		tmpl = "tpl"
		pre = "xml/tpl/"
	}
	m := memFS{}
	for _, n := range names {
		m[pre+n] = "data " + n
	}
	bad := names[pickN("bad", 3)]
	f := faultFS{memFS: m, bad: pre + bad, err: errFault}
	if pickN("error", 2) == 1 {
		f.err = io.ErrUnexpectedEOF
	}
	switch sym.Pick("fault", 3) {
	case 0:
		f.open = true
	case 1:
		f.at = pickN("at", len("data ")+len(bad)+1)
	case 2:
		delete(m, pre+bad)
	}
	d := docx.New().UseTemplate(tmpl, names, f)
	d.AddParagraph().AddText("x")
	_, err := d.WriteTo(&faultWriter{limit: 1 << 30})
	sym.Assert(err != nil, "a failure of a template file is not reported")
	sym.Reach("template")
}

// faultReader fails every read that touches the bytes from at, or every call
// after some number of calls.
type faultReader struct {
	data  string
	at    int
	calls int
	short bool // the read before the fault is cut short
	once  bool // only one read fails
	hit   bool
	err   error
}

func (r *faultReader) ReadAt(p []byte, off int64) (int, error) {
	if r.calls == 0 && !(r.once && r.hit) {
		r.hit = true
		return 0, r.err
	}
	if r.calls > 0 {
		r.calls--
	}
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.data[off:])
	if int(off)+n > r.at {
		r.hit = true
		if r.short && r.at > int(off) {
			return sym.Concrete(r.at - int(off)), r.err
		}
		return 0, r.err
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// C12_reader: the reader of the package fails at a place or at some time,
// while opening or saving.
func C12_reader() {
	parts := []part{{"other.bin", strings.Repeat("o", 20)}, {relsPart, relsXML("")},
		{"word/document.xml", docHead + `<w:p><w:r><w:t>hello</w:t></w:r></w:p>` + docTail}, {mediaDir + "m.png", "mediadata"}, {"z/other", "zz"}}
	b := string(mkZip(parts...))
	r := &faultReader{data: b, at: 1 << 30, calls: 1 << 30, err: faultErr(true)}
	late := sym.Bool("late")
	set := func() {
		if sym.Bool("time") {
			r.calls = sym.Int("calls", 0, 200)
			r.once = sym.Bool("once")
		} else {
			r.at = sym.Int("at", 0, len(b)-1)
			r.short = sym.Thorough() && sym.Bool("short")
		}
	}
	if !late {
		set()
	}
	d, err := docx.Parse(r, int64(len(b)))
	if err != nil {
		sym.Assert(r.hit, "opening fails without a fault")
		sym.Reach("open failed")
		return
	}
	if late {
		sym.Assert(!r.hit, "fault")
		set()
	}
	w := &faultWriter{limit: 1 << 30}
	_, err = d.WriteTo(w)
	if err != nil {
		sym.Assert(r.hit, "saving fails without a fault")
		sym.Reach("save failed")
		return
	}
	// no error: everything is there
	ps := paras(d)
	sym.Assert(len(ps) == 1 && ps[0].String() == "hello", "content lost without an error")
	got := unzip(w.keep)
	sym.Assert(len(got) == len(parts), "parts lost without an error")
	for _, p := range parts {
		n := 0
		for _, g := range got {
			if g.name == p.name {
				n++
				if !strings.HasPrefix(p.name, "word/document") && !strings.HasPrefix(p.name, "word/_rels") {
					sym.Assert(g.data == p.data, "bytes of a part lost without an error")
				}
			}
		}
		sym.Assert(n == 1, "a part lost without an error")
	}
	sym.Reach("complete")
}

// parse opens a package.
func parse(b []byte) (*docx.Docx, error) {
	return docx.Parse(strings.NewReader(string(b)), int64(len(b)))
}

// lastByte is nothing or any byte.
func lastByte(xml string, k int) string {
	if !sym.Bool("more") {
		return ""
	}
	c := sym.Byte("last")
	sym.Assume(c != xml[k]) // that is another place
	return string([]byte{c})
}

// C12_truncated: the package, the document part or the relationship part ends
// early.
func C12_truncated() {
	switch sym.Pick("what", 3) {
	case 0:
		b := mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", docHead + docTail})
		k := pickN("at", len(b))
		_, err := parse(b[:k])
		sym.Assert(err != nil, "a truncated package opens")
	case 1:
		kind := goldenKinds[pickN("kind", len(goldenKinds))]
		head := strings.TrimSpace(docHead[strings.IndexByte(docHead, '\n'):])
		xml := head + goldenXML[kind] + docTail
		var at []int
		full := kind == "section"
		for k := range xml {
			// around the places where elements and values begin and end
			if sym.Thorough() || full || k > 0 && xml[k-1] == '>' || xml[k] == '>' || xml[k] == '<' && k%3 == 0 || xml[k] == '"' && k%5 == 0 {
				at = append(at, k)
			}
		}
		k := at[pickN("at", len(at))]
		last := ""
		if sym.Thorough() || full {
			last = lastByte(xml, k)
		}
		_, err := parse(mkZip(part{relsPart, relsXML("")}, part{"word/document.xml", xml[:k] + last}))
		sym.Assert(err != nil, "a truncated document part opens")
	case 2:
		xml := relsXML(`<Relationship Id="rId1" Type="t" Target="x"/><Relationship Id="rId2" Type="t" Target="y"></Relationship>`)
		k := pickN("at", len(xml))
		_, err := parse(mkZip(part{relsPart, xml[:k] + lastByte(xml, k)}, part{"word/document.xml", docHead + docTail}))
		sym.Assert(err != nil, "a truncated relationship part opens")
	}
	sym.Reach("truncated")
}

// C12_malformed: one end tag has another name, one is missing, or a start tag
// is broken.
func C12_malformed() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	xml := goldenXML[kind]
	var at []int
	for i := range xml {
		if xml[i] == '<' {
			at = append(at, i)
		}
	}
	at1 := at
	if !sym.Thorough() { // one of three
		at1 = nil
		for k, x := range at {
			if k%3 == len(kind)%3 {
				at1 = append(at1, x)
			}
		}
	}
	i := at1[pickN("at", len(at1))]
	e := i + strings.IndexByte(xml[i:], '>')
	bad := ""
	switch sym.Pick("fault", 3) {
	case 0: // another name
		sym.Assume(xml[i+1] == '/')
		c := sym.Byte("c")
		k := i + 2 + sym.Concrete(sym.Pick("k", 2))*(e-1-i-2)
		sym.Assume(c != xml[k] && c != ' ' && c != '\t' && c != '\n' && c != '\r')
		bad = xml[:k] + string([]byte{c}) + xml[k+1:]
	case 1: // lost
		bad = xml[:i] + xml[e+1:]
	case 2: // broken
		bad = xml[:i+1] + "<" + xml[i+1:]
	}
	_, err := parse(bodyXML(bad))
	sym.Assert(err != nil, "a malformed document part opens")
	sym.Reach("malformed")
}
