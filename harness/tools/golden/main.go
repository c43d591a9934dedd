// Command golden prints golden.go. It was run once; the output was reviewed
// against ECMA-376 and is committed. Checks do not run it.
package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"strings"

	"verif/harness/h"
)

type node struct {
	name, attrs string
	att         []string
	kids        []*node
	text        string
}

// lists are the elements whose children are ordered content
var lists = map[string]bool{"w:body": true, "w:p": true, "w:r": true, "w:tbl": true, "w:tr": true, "w:tc": true, "w:tabs": true,
	"w:tblGrid": true, "w:txbxContent": true, "wpc:wpc": true, "wpg:wgp": true, "wpg:grpSp": true, "w:hyperlink": true}

func parse(s string) *node {
	root := &node{}
	st := []*node{root}
	for len(s) > 0 {
		if s[0] != '<' {
			i := strings.IndexByte(s, '<')
			if i < 0 {
				i = len(s)
			}
			st[len(st)-1].text = s[:i]
			s = s[i:]
			continue
		}
		i := strings.IndexByte(s, '>')
		t := s[1:i]
		s = s[i+1:]
		if t[0] == '/' {
			st = st[:len(st)-1]
			continue
		}
		n := &node{}
		n.name, n.attrs, _ = strings.Cut(t, " ")
		rest := n.attrs
		for rest != "" {
			k := strings.Index(rest, `="`)
			e := k + 2 + strings.IndexByte(rest[k+2:], '"') + 1
			n.att = append(n.att, rest[:e])
			rest = strings.TrimPrefix(rest[e:], " ")
		}
		p := st[len(st)-1]
		p.kids = append(p.kids, n)
		st = append(st, n)
	}
	return root
}

func (n *node) print(b *strings.Builder, rev bool) {
	if n.name != "" {
		b.WriteString("<" + n.name)
		for i := range n.att {
			a := n.att[i]
			if rev {
				a = n.att[len(n.att)-1-i]
			}
			b.WriteString(" " + a)
		}
		b.WriteString(">" + n.text)
	}
	for i := range n.kids {
		k := n.kids[i]
		if rev && !lists[n.name] && n.name != "" {
			k = n.kids[len(n.kids)-1-i]
		}
		k.print(b, rev)
	}
	if n.name != "" {
		b.WriteString("</" + n.name + ">")
	}
}

func main() {
	fmt.Println("package h\n\n// reference documents: one body item with every part present\nvar goldenXML = map[string]string{")
	var rev strings.Builder
	for _, k := range h.GoldenKinds() {
		var b bytes.Buffer
		x := h.GoldenItem(k)
		if err := xml.NewEncoder(&b).Encode(x); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("\t%q: `%s`,\n", k, b.String())
		var r strings.Builder
		parse(b.String()).print(&r, true)
		var f strings.Builder
		parse(b.String()).print(&f, false)
		if f.String() != b.String() {
			fmt.Fprintln(os.Stderr, "print", k)
			os.Exit(1)
		}
		fmt.Fprintf(&rev, "\t%q: `%s`,\n", k, r.String())
	}
	fmt.Print("}\n\n// the same with attributes and unordered children reversed\nvar goldenRev = map[string]string{\n", rev.String(), "}\n")
}
