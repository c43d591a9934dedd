package h

import (
	"math"
	"strings"
	"unicode"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C16_int"] = C16_int
	All["C16_limit"] = C16_limit
	All["C16_frac"] = C16_frac
	All["C16_exp"] = C16_exp
	All["C16_bad"] = C16_bad
	All["C16_doc"] = C16_doc
}

// both reads a number with both readers.
func both(s string) (int64, error) {
	a, err := docx.GetInt64(s)
	b, err2 := docx.GetInt(s)
	sym.Assert((err == nil) == (err2 == nil), "the readers disagree")
	if err == nil {
		sym.Assert(int64(b) == a, "the readers disagree")
	}
	return a, err
}

// digits are n symbolic decimal digits and their value.
func digits(name string, n int) (string, uint64) {
	b := make([]byte, n)
	v := uint64(0)
	for i := range b {
		c := sym.Byte(name)
		sym.Assume(c >= '0' && c <= '9')
		b[i] = c
		v = v*10 + uint64(c-'0')
	}
	return string(b), v
}

// C16_int: integers of up to 18 digits with any sign and leading zeros.
func C16_int() {
	n := 1 + pickN("n", 18)
	s, u := digits("d", n)
	v := int64(u)
	switch sym.Pick("sign", 3) {
	case 1:
		s = "-" + s
		v = -v
	case 2:
		s = "+" + s
	}
	if sym.Bool("zeros") {
		if s[0] == '-' || s[0] == '+' {
			s = s[:1] + "000" + s[1:]
		} else {
			s = "000" + s
		}
	}
	got, err := both(s)
	sym.Assert(err == nil, "an integer is not read")
	sym.Assert(got == v, "value of an integer")
	sym.Reach("int")
}

// C16_limit: integers of 19 and 20 digits around the limits of 64 bits.
func C16_limit() {
	pre := "92233720368547758"
	if sym.Bool("19") {
		pre = ""
	}
	neg := sym.Bool("neg")
	var s string
	var fits bool
	var v uint64
	if pre != "" {
		t, u := digits("d", 2)
		s = pre + t
		v = 9223372036854775800 + u
		fits = v <= math.MaxInt64 || neg && v == 1<<63
	} else {
		// the first digits are free, the value stays below the limit
		t, u := digits("d", 19)
		s, v = t, u
		sym.Assume(u <= math.MaxInt64)
		fits = true
	}
	if neg {
		s = "-" + s
		v = -v
	}
	got, err := both(s)
	if fits {
		sym.Assert(err == nil, "an integer is not read")
		sym.Assert(got == int64(v), "value of an integer")
	} else {
		// the fallback has the precision of a float: 2^63 is out of range
		sym.Assert(err != nil, "an integer out of range is read")
	}
	sym.Reach("limit")
}

// C16_frac: a fraction is dropped.
func C16_frac() {
	n := pickN("n", 4)
	k := pickN("k", 3)
	if n == 0 && k == 0 {
		k = 1
	}
	s, u := digits("d", n)
	f, _ := digits("f", k)
	s += "." + f
	v := int64(u)
	if sym.Bool("neg") {
		s = "-" + s
		v = -v
	}
	got, err := both(s)
	sym.Assert(err == nil, "a number with a fraction is not read")
	sym.Assert(got == v, "value of a number with a fraction")
	sym.Reach("frac")
}

// C16_exp: exponents.
func C16_exp() {
	s, u := digits("d", 1+pickN("n", 2))
	e := pickN("e", 25)
	neg := sym.Bool("negexp")
	es := ""
	if e >= 10 {
		es = string([]byte{byte('0' + e/10)})
	}
	es += string([]byte{byte('0' + e%10)})
	if neg {
		es = "-" + es
	}
	s += sym.Choice("E", "e", "E") + es
	pow, over := uint64(1), false
	for i := 0; i < e; i++ {
		over = over || pow > math.MaxInt64/10
		pow *= 10
	}
	v, fits := uint64(0), true
	switch {
	case neg && !over:
		v = u / pow
	case neg:
	case over:
		fits = u == 0
	default:
		fits = u <= math.MaxInt64/pow
		v = u * pow
	}
	got, err := both(s)
	if !fits {
		sym.Assert(err != nil, "a number out of range is read")
	} else {
		sym.Assert(err == nil, "a number with an exponent is not read")
		sym.Assert(got == int64(v), "value of a number with an exponent")
	}
	sym.Reach("exp")
}

// C16_bad: what does not begin with a number is an error.
func C16_bad() {
	s := sym.Str("s", 0, 3)
	t := strings.TrimLeftFunc(s, unicode.IsSpace)
	if t != "" && (t[0] == '+' || t[0] == '-') {
		t = t[1:]
	}
	if t != "" && t[0] == '.' {
		t = t[1:]
	}
	if t != "" && t[0] >= '0' && t[0] <= '9' {
		return
	}
	_, err := both(s)
	sym.Assert(err != nil, "a text that does not begin with a number is read as one")
	sym.Reach("bad")
	if sym.Bool("special") {
		_, err := both(sym.Choice("word", "inf", "-Inf", "+infinity", "nan", "NaN", "1e400", "-1e19", "9.3e18", "99999999999999999999", "-9223372036854775809", "e5", "--1", ".", "-", "+", "e", "_1", "٣"))
		sym.Assert(err != nil, "a text that is no number in range is read")
		sym.Reach("special")
	}
}

// C16_doc: numbers of a document.
func C16_doc() {
	n := 1 + pickN("n", 18)
	s, u := digits("d", n)
	sym.Assume(n == 1 || s[0] != '0')
	v := int64(u)
	if sym.Bool("neg") {
		s = "-" + s
		v = -v
	}
	want := v
	switch sym.Pick("tail", 3) {
	case 1:
		sym.Assume(n <= 2)
		s += ".5"
	case 2:
		sym.Assume(n <= 2)
		s += "e1"
		want *= 10
	}
	xml := `<w:tbl><w:tblGrid><w:gridCol w:w="` + s + `"/></w:tblGrid><w:tr><w:trPr><w:trHeight w:val="` + s + `"/></w:trPr></w:tr></w:tbl>` +
		`<w:p><w:r><w:drawing><wp:inline><wp:extent cx="` + s + `" cy="` + s + `"/></wp:inline></w:drawing></w:r></w:p>`
	d := Open(bodyXML(xml))
	for i := 0; i < 2; i++ {
		it := d.Document.Body.Items
		t := it[0].(*docx.Table)
		sym.Assert(t.TableGrid.GridCols[0].W == want, "width of a column")
		sym.Assert(t.TableRows[0].TableRowProperties.TableRowHeight.Val == want, "height of a row")
		e := it[1].(*docx.Paragraph).Children[0].(*docx.Run).Children[0].(*docx.Drawing).Inline.Extent
		sym.Assert(e.CX == want && e.CY == want, "extent")
		d = Reopen(d)
	}
	sym.Reach("doc")
}
