package h

import (
	"reflect"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

// gen fills a value of the document model by reflection: every exported field
// gets a distinct value, one leaf a symbolic one, and one optional part may be
// left out or be the only one of its parent.
type gen struct {
	dec    int               // optional parts met so far
	absent int               // index of the part left out, or -1
	alone  int               // index of the part that is the only one, or -1
	leaf   int               // leaves met so far
	symAt  int               // index of the symbolic leaf, or -1
	maxLen int               // length of a symbolic string
	skip   map[string]bool   // field names left zero
	hit    bool              // a chosen index was met
	words  int               // length of the words that all strings are, or 0
	all    map[string]string // the words and numbers, by their markers
	// for documents given as text
	digits  bool   // numbers from digits
	symNum  bool   // the symbolic leaf is a number
	symText string // its text
}

func newGen() *gen { return &gen{absent: -1, alone: -1, symAt: -1, maxLen: 1} }

var flagTypes = map[string]bool{"WTableLook": true}

func (g *gen) present(base, n, i int) bool {
	if g.absent == base+i {
		g.hit = true
		return false
	}
	if g.alone >= base && g.alone < base+n {
		g.hit = true
		return g.alone == base+i
	}
	return true
}

func optional(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		return true
	}
	return false
}

// skipField tells the fields that carry no content.
func skipField(f reflect.StructField) bool {
	return f.PkgPath != "" || f.Name == "XMLName"
}

var fieldOrder = map[reflect.Type][]int{}

// fieldsOf lists the content fields of a struct by name, so that the order of
// their declaration does not matter.
func fieldsOf(t reflect.Type) []int {
	if o, ok := fieldOrder[t]; ok {
		return o
	}
	var o []int
	for i := 0; i < t.NumField(); i++ {
		if skipField(t.Field(i)) {
			continue
		}
		o = append(o, i)
		for j := len(o) - 1; j > 0 && t.Field(o[j]).Name < t.Field(o[j-1]).Name; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	fieldOrder[t] = o
	return o
}

func (g *gen) fill(v reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		g.fill(p.Elem())
		v.Set(p)
	case reflect.Struct:
		n := 0
		order := fieldsOf(t)
		for _, i := range order {
			f := t.Field(i)
			if !g.skip[f.Name] && optional(f.Type) {
				n++
			}
		}
		base := g.dec
		g.dec += n
		k := 0
		for _, i := range order {
			f := t.Field(i)
			if g.skip[f.Name] {
				continue
			}
			if optional(f.Type) {
				k++
				if !g.present(base, n, k-1) {
					continue
				}
			}
			g.field(t, f, v.Field(i))
		}
	case reflect.Slice:
		s := reflect.MakeSlice(t, 2, 2)
		for i := 0; i < 2; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	}
}

func (g *gen) field(owner reflect.Type, f reflect.StructField, v reflect.Value) {
	if f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Interface {
		v.Set(reflect.ValueOf(g.children(owner.Name())))
		return
	}
	switch f.Type.Kind() {
	case reflect.String:
		switch f.Name {
		case "XMLA":
			v.SetString(docx.XMLNS_DRAWINGML_MAIN)
		case "XMLPIC":
			v.SetString(docx.XMLNS_DRAWINGML_PICTURE)
		case "XMLSpace", "Space":
			if strings.Contains(string(f.Tag), "xml:space") {
				v.SetString("preserve")
			} else {
				v.SetString(g.str())
			}
		default:
			v.SetString(g.str())
		}
	case reflect.Int, reflect.Int64:
		if flagTypes[owner.Name()] {
			v.SetInt(int64(g.num(1)))
		} else {
			v.SetInt(int64(g.num(0)))
		}
	case reflect.Slice:
		if f.Type.Elem() == reflect.TypeOf(docx.Paragraph{}) || f.Type.Elem() == reflect.TypeOf(&docx.Paragraph{}) {
			s := reflect.MakeSlice(f.Type, 2, 2)
			for i := 0; i < 2; i++ {
				p := g.smallPara()
				if f.Type.Elem().Kind() == reflect.Ptr {
					s.Index(i).Set(reflect.ValueOf(p))
				} else {
					s.Index(i).Set(reflect.ValueOf(*p))
				}
			}
			v.Set(s)
			return
		}
		g.fill(v)
	default:
		g.fill(v)
	}
}

func (g *gen) str() string {
	i := g.leaf
	g.leaf++
	if i == g.symAt {
		g.hit = true
		s := sym.Str("leaf", 0, g.maxLen)
		if g.digits {
			sym.Assume(len(s) > 0)
			for i := 0; i < len(s); i++ {
				sym.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '<' && s[i] != '&' && s[i] != '"')
			}
			g.symText = s
			return s
		}
		AssumeText(s)
		return s
	}
	if g.words > 0 {
		return g.mark("v"+strconv.Itoa(i), symWord("word", g.words))
	}
	return "v" + strconv.Itoa(i)
}

func (g *gen) mark(m, v string) string {
	if g.all == nil {
		g.all = map[string]string{}
	}
	g.all[m] = v
	return v
}

var wordChars = func() (t [256]bool) {
	for _, c := range "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-#." {
		t[c] = true
	}
	return
}()

// symWord is any word of n letters, digits and the like.
func symWord(name string, n int) string {
	s := sym.Str(name, n, n)
	for i := 0; i < n; i++ {
		sym.Assume(wordChars[s[i]])
	}
	return s
}

func (g *gen) num(flag int) int {
	i := g.leaf
	g.leaf++
	if i == g.symAt {
		g.hit = true
		g.symNum = true
		if g.digits {
			n, s := symDigits("digit", 3)
			g.symText = s
			return n
		}
		if flag == 1 {
			return sym.Int("leaf", 0, 1)
		}
		return int(sym.Int64("leaf"))
	}
	if flag == 1 {
		return i % 2
	}
	return 1000 + i
}

func (g *gen) smallPara() *docx.Paragraph {
	return &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{&docx.Text{Text: g.str()}}}}}
}

func (g *gen) children(owner string) []interface{} {
	mk := func(x interface{}) interface{} {
		g.fill(reflect.ValueOf(x).Elem())
		return x
	}
	switch owner {
	case "Run":
		return []interface{}{mk(&docx.Text{}), &docx.Tab{}, mk(&docx.BarterRabbet{}), mk(&docx.Text{})}
	case "Paragraph":
		return []interface{}{mk(&docx.Run{}), mk(&docx.Hyperlink{}), mk(&docx.Run{})}
	case "WordprocessingCanvas", "WordprocessingGroup", "WPGGroupShape":
		// the elements vary in harnesses of their own
		pic := &docx.Picture{XMLPIC: docx.XMLNS_DRAWINGML_PICTURE, NonVisualPicProperties: &docx.PICNonVisualPicProperties{NonVisualDrawingProperties: docx.NonVisualProperties{ID: g.num(0), Name: g.str()}}}
		shp := &docx.WordprocessingShape{CNvPr: &docx.NonVisualProperties{ID: g.num(0), Name: g.str()}}
		items := []interface{}{pic, shp}
		cnv := &docx.WordprocessingCanvas{Items: []interface{}{shp, pic}}
		grp := &docx.WordprocessingGroup{Elems: []interface{}{pic, shp}}
		gsp := &docx.WPGGroupShape{CNvPr: &docx.NonVisualProperties{ID: g.num(0), Name: g.str()}, Elems: []interface{}{shp, pic, cnv}}
		switch owner {
		case "WordprocessingCanvas":
			items = append(items, grp, pic)
		case "WordprocessingGroup":
			items = append(items, cnv, gsp, shp)
		default:
			items = append(items, cnv, pic)
		}
		return items
	}
	panic("no children for " + owner)
}

// ignored are the fields that same does not compare, for copies that get new
// ids.
var ignored map[string]bool

func sameBut(a, b interface{}, fields ...string) {
	ignored = map[string]bool{}
	for _, f := range fields {
		ignored[f] = true
	}
	same(reflect.ValueOf(a), reflect.ValueOf(b), "item")
	ignored = nil
}

// same asserts that two values of the model have the same content.
func same(a, b reflect.Value, path string) {
	sym.Assert(a.Type() == b.Type(), path+": type")
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		sym.Assert(a.IsNil() == b.IsNil(), path+": present")
		if !a.IsNil() {
			if a.Kind() == reflect.Interface {
				same(a.Elem(), b.Elem(), path)
				return
			}
			same(a.Elem(), b.Elem(), a.Type().Elem().Name())
		}
	case reflect.Struct:
		t := a.Type()
		n := t.Name()
		if n == "" {
			n = path
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if skipField(f) {
				continue
			}
			if len(ignored) > 0 && ignored[n+"."+f.Name] {
				continue
			}
			same(a.Field(i), b.Field(i), n+"."+f.Name)
		}
	case reflect.Slice:
		sym.Assert(a.Len() == b.Len(), path+": number of elements")
		for i := 0; i < a.Len(); i++ {
			same(a.Index(i), b.Index(i), path)
		}
	case reflect.String:
		sym.Assert(a.String() == b.String(), path)
	case reflect.Int, reflect.Int64:
		sym.Assert(a.Int() == b.Int(), path)
	case reflect.Bool:
		sym.Assert(a.Bool() == b.Bool(), path)
	default:
		panic("same: " + a.Kind().String())
	}
}

func sameItems(a, b []interface{}) {
	sym.Assert(len(a) == len(b), "number of body items")
	for i := range a {
		same(reflect.ValueOf(a[i]), reflect.ValueOf(b[i]), "item")
	}
}

// Variants explores mk under: everything present with one symbolic leaf, one
// part absent, one part alone.
func variants(mk func(g *gen)) {
	g := newGen()
	if sym.Thorough() {
		g.maxLen = 2
	}
	// sizes of the choices, found by a concrete dry run
	dry := newGen()
	mk(dry)
	nd, nl := dry.dec, dry.leaf
	switch sym.Pick("mode", 4) {
	case 3: // all strings and numbers at once
		g.words, g.hit = anyWords(), true
	case 0:
		g.symAt = pickN("leaf.at", nl)
	case 1:
		g.absent = pickN("absent", nd)
	case 2:
		g.alone = pickN("alone", nd)
	}
	mk(g)
	if !g.hit {
		sym.Assume(false)
	}
}

func anyWords() int {
	max := 12
	if sym.Thorough() {
		max = 24
	}
	return 1 + pickN("words", max)
}

// pickN is any value in [0,n), as a concrete value per path.
func pickN(name string, n int) int {
	if n <= 256 {
		return sym.Concrete(sym.Pick(name, n))
	}
	i := sym.Concrete(sym.Pick(name+".hi", (n+255)/256))*256 + sym.Concrete(sym.Pick(name, 256))
	sym.Assume(i < n)
	return i
}

// pickFew is pickN for an n that differs between the engine and a native run.
func pickFew(name string, n int) int {
	if sym.Symbolic() {
		return pickN(name, n)
	}
	return (sym.Pick(name+".hi", 256)*256 + sym.Pick(name, 256)) % n
}

// symDigits is a number of up to n digits with an optional sign, and its text.
func symDigits(name string, n int) (int, string) {
	k := sym.Concrete(sym.Int(name+".n", 1, n))
	v := 0
	b := make([]byte, 0, n+1)
	neg := sym.Bool(name + ".neg")
	if neg {
		b = append(b, '-')
	}
	for i := 0; i < k; i++ {
		c := sym.Byte(name)
		sym.Assume(c >= '0' && c <= '9')
		v = v*10 + int(c-'0')
		b = append(b, c)
	}
	if neg {
		v = -v
	}
	return v, string(b)
}
