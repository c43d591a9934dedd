package h

import (
	"unicode/utf8"

	"verif/harness/sym"
)

// AssumeText keeps the strings an XML document can carry: valid UTF-8 of XML
// characters.
func AssumeText(s string) {
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			sym.Assume(c >= 0x20 || c == '\t' || c == '\n' || c == '\r')
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		sym.Assume(!(r == utf8.RuneError && n <= 1))
		sym.Assume(r != 0xFFFE && r != 0xFFFF)
		i += n
	}
}
