package h

import (
	"regexp"

	docx "github.com/fumiama/go-docx"
	"verif/harness/sym"
)

func init() {
	All["C10_partition"] = C10_partition
	All["C10_media"] = C10_media
	All["C10_kinds"] = C10_kinds
	All["C10_regex"] = C10_regex
}

// C10_partition: any sequence of items, any rule.
func C10_partition() {
	max := 4
	if sym.Thorough() {
		max = 5
	}
	n := sym.Concrete(sym.Int("items", 0, max))
	d := docx.New()
	if sym.Bool("template") {
		d.UseTemplate("", []string{"a.txt"}, memFS{"a.txt": "A"})
	}
	cut := map[*docx.Paragraph]bool{}
	var starts []bool
	for i := 0; i < n; i++ {
		start := i == 0
		switch sym.Pick("kind", 4) {
		case 0:
			p := d.AddParagraph()
			p.AddText("p" + string(rune('0'+i)))
			cut[p] = true
			start = true
		case 1:
			d.AddParagraph().AddText("q" + string(rune('0'+i)))
		case 2:
			d.AddTable(1, 1, 0, nil).TableRows[0].TableCells[0].AddParagraph().AddText("t" + string(rune('0'+i)))
		case 3:
			d.WithA4Page()
		}
		starts = append(starts, start)
	}
	items := append([]interface{}{}, d.Document.Body.Items...)
	docs := d.SplitByParagraph(func(p *docx.Paragraph) bool { return cut[p] })
	sym.Assert(len(d.Document.Body.Items) == n, "the original changed")
	for i := range items {
		sym.Assert(d.Document.Body.Items[i] == items[i], "the original changed")
	}
	nd := 0
	for _, s := range starts {
		if s {
			nd++
		}
	}
	sym.Assert(len(docs) == nd, "number of documents")
	k := 0
	for _, x := range docs {
		sym.Assert(len(x.Document.Body.Items) > 0, "an empty document")
		for j, it := range x.Document.Body.Items {
			sym.Assert(k < n, "an item twice")
			sym.Assert(starts[k] == (j == 0), "place of a cut")
			sameBut(it, items[k])
			k++
		}
	}
	sym.Assert(k == n, "an item is lost")
	sym.Reach("partition")
}

// C10_media: every part is complete.
func C10_media() {
	i, j := pickN("item", len(mediaItems)), pickN("item", len(mediaItems))
	media := sym.Choice("media", "image1.png", "Image2.GIF", "noext")
	link := sym.Choice("link", "rId4", "rId1", "link9")
	b := mediaDoc(link, symTarget("target"), "rId5", media, sym.Str("data", 0, 1), i, j)
	d, d2 := Open(b), Open(b)
	cut := sym.Bool("cut")
	docs := d.SplitByParagraph(func(p *docx.Paragraph) bool { return cut })
	sameItems(d.Document.Body.Items, d2.Document.Body.Items)
	sameRefs(refsOf(d), refsOf(d2), "original")
	for round := 0; round < 2; round++ {
		k := 0
		for l, x := range docs {
			uniqueIDs(x)
			for _, it := range x.Document.Body.Items {
				sym.Assert(k < 2, "an item twice")
				sameBut(it, d2.Document.Body.Items[k], copiedPic...)
				sameRefs(refsIn(x, it), refsIn(d2, d2.Document.Body.Items[k]), "part")
				k++
			}
			if round == 0 {
				docs[l] = Reopen(x)
			}
		}
		sym.Assert(k == 2, "an item is lost")
	}
	sym.Reach("media")
}

// C10_kinds: an item of any kind with any value of any leaf.
func C10_kinds() {
	kind := goldenKinds[pickN("kind", len(goldenKinds))]
	b := kindPackage(kind, pickLeaf(kind))
	d, d2 := Open(b), Open(b)
	docs := d.SplitByParagraph(func(p *docx.Paragraph) bool { return true })
	sym.Assert(len(docs) == 1 && len(docs[0].Document.Body.Items) == 1, "number of items")
	fields := copied
	if kind == "picture" {
		fields = copiedPic
	}
	sameBut(docs[0].Document.Body.Items[0], d2.Document.Body.Items[0], fields...)
	sameItems(d.Document.Body.Items, d2.Document.Body.Items)
	sameRefs(refsOf(docs[0]), refsOf(d2), "part")
	sym.Reach("kinds")
}

// C10_regex: the rule by regular expression looks at the plain text.
func C10_regex() {
	d := docx.New()
	re := regexp.MustCompile("^#[0-9]")
	var starts []bool
	for i := 0; i < 2; i++ {
		p := d.AddParagraph()
		s := sym.Str("s", 0, 2)
		for j := 0; j < len(s); j++ {
			sym.Assume(s[j] >= 0x20 && s[j] < 0x7f)
		}
		if i == 0 {
			p.AddText(s)
		} else {
			p.AddLink("#1", "t")
			s = "["
		}
		starts = append(starts, len(s) == 2 && s[0] == '#' && s[1] >= '0' && s[1] <= '9')
	}
	rule := docx.SplitDocxByPlainTextRegex(re)
	ps := paras(d)
	for i := range ps {
		sym.Assert(rule(ps[i]) == starts[i], "rule by regular expression")
	}
	sym.Reach("regex")
}
