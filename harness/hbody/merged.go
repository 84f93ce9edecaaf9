package hbody

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

func optional(s *hcl.BodySchema) *hcl.BodySchema {
	o := &hcl.BodySchema{Blocks: s.Blocks}
	for _, a := range s.Attributes {
		o.Attributes = append(o.Attributes, hcl.AttributeSchema{Name: a.Name})
	}
	return o
}

func errCount(ds hcl.Diagnostics) int {
	n := 0
	for _, d := range ds {
		if d.Severity == hcl.DiagError {
			n++
		}
	}
	return n
}

func subjects(ds hcl.Diagnostics, r hcl.Range) int {
	n := 0
	for _, d := range ds {
		if d.Subject != nil && *d.Subject == r {
			n++
		}
	}
	return n
}

func sameAttr(a, b *hcl.Attribute) bool {
	return a != nil && b != nil && a.Name == b.Name && a.Range == b.Range && a.NameRange == b.NameRange && a.Expr.Range() == b.Expr.Range()
}

func sameBlock(a, b *hcl.Block) bool {
	if a.Type != b.Type || a.TypeRange != b.TypeRange || a.DefRange != b.DefRange || len(a.Labels) != len(b.Labels) {
		return false
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] || a.LabelRanges[i] != b.LabelRanges[i] {
			return false
		}
	}
	return a.Body.MissingItemRange() == b.Body.MissingItemRange()
}

// union is the content of several bodies taken together; it also returns
// what each of them leaves.
func union(parts []hcl.Body, s *hcl.BodySchema, partial bool) (map[string]*hcl.Attribute, hcl.Blocks, hcl.Diagnostics, int, []hcl.Body) {
	o := optional(s)
	attrs := map[string]*hcl.Attribute{}
	var blocks hcl.Blocks
	var diags hcl.Diagnostics
	var rest []hcl.Body
	extra := 0
	for _, p := range parts {
		var c *hcl.BodyContent
		var d hcl.Diagnostics
		var r hcl.Body
		if partial {
			c, r, d = p.PartialContent(o)
			rest = append(rest, r)
		} else {
			c, d = p.Content(o)
		}
		diags = append(diags, d...)
		blocks = append(blocks, c.Blocks...)
		for _, a := range o.Attributes {
			if at := c.Attributes[a.Name]; at != nil {
				if attrs[a.Name] != nil {
					extra++
				} else {
					attrs[a.Name] = at
				}
			}
		}
	}
	for _, a := range s.Attributes {
		if a.Required && attrs[a.Name] == nil {
			extra++
		}
	}
	return attrs, blocks, diags, extra, rest
}

func checkUnion(parts []hcl.Body, s *hcl.BodySchema, partial bool, c *hcl.BodyContent, d hcl.Diagnostics, what string) []hcl.Body {
	attrs, blocks, diags, extra, rest := union(parts, s, partial)
	if c == nil {
		sym.Fail(what + ": content")
		return rest
	}
	sym.Assert(len(c.Attributes) == len(attrs), what+": the attributes of all parts")
	for _, a := range s.Attributes {
		if attrs[a.Name] != nil {
			sym.Assert(sameAttr(c.Attributes[a.Name], attrs[a.Name]), what+": the first definition of an attribute")
		}
	}
	sym.Assert(len(c.Blocks) == len(blocks), what+": the blocks of all parts")
	for i := range c.Blocks {
		if i < len(blocks) {
			sym.Assert(sameBlock(c.Blocks[i], blocks[i]), what+": blocks in the order of the parts")
		}
	}
	sym.Assert(errCount(d) == errCount(diags)+extra, what+": errors of the parts, duplicates and missing attributes")
	for _, pd := range diags {
		if pd.Subject != nil {
			sym.Assert(subjects(d, *pd.Subject) >= subjects(diags, *pd.Subject), what+": errors of the parts are kept")
		}
	}
	return rest
}

func leftUnion(parts []hcl.Body, b hcl.Body, what string) {
	as, d := b.JustAttributes()
	want := map[string]*hcl.Attribute{}
	n := 0
	for _, p := range parts {
		pa, pd := p.JustAttributes()
		n += errCount(pd)
		for _, name := range []string{"a", "b", "c", "d"} {
			if a := pa[name]; a != nil {
				if want[name] != nil {
					n++
				} else {
					want[name] = a
				}
			}
		}
	}
	sym.Assert(len(as) == len(want) && errCount(d) == n, what)
	for name := range want {
		sym.Assert(sameAttr(as[name], want[name]), what)
	}
}

func nativePart(n int, name string) hcl.Body {
	g := &lib.GenBody{Names: "abcd", Left: n, MaxLabels: 1}
	g.Body(0)
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, name, lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	return f.Body
}

var jsonParts = []string{
	`{"?": 1}`,
	`{"?": {"p": {}}, "?": [{}, {}]}`,
	`[{"?": {}}, {"?": null}]`,
}

func jsonPart(name string) hcl.Body {
	sh := jsonParts[sym.Choice(len(jsonParts))]
	var src []byte
	for i := 0; i < len(sh); i++ {
		if sh[i] == '?' {
			src = append(src, sym.ByteIn("abcd"))
		} else {
			src = append(src, sh[i])
		}
	}
	sym.ObserveBytes("json", src)
	f, diags := json.Parse(src, name)
	sym.Assert(!diags.HasErrors(), "the document is valid")
	return f.Body
}

// Merged: merged bodies against their parts.
func Merged() {
	n := sym.Param("n", 1)
	parts := []hcl.Body{nativePart(n, "1.hcl")}
	kind := sym.Param("kind", 0)
	switch kind {
	case 0:
		// parts of the same file are no different from those of others
		parts = append(parts, nativePart(n, []string{"2.hcl", "1.hcl"}[sym.Choice(2)]))
	case 1:
		parts = append(parts, jsonPart("2.json"))
	default:
		parts = append(parts, nativePart(1, "2.hcl"), jsonPart("3.json"))
	}
	s1 := anySchema()
	s2 := schemas[1]
	if kind < 2 {
		s2 = anySchema()
	}
	last := len(parts) - 1
	var m hcl.Body
	switch sym.Choice(4) {
	case 0:
		m = hcl.MergeBodies(parts)
	case 1:
		m = hcl.MergeBodies([]hcl.Body{hcl.MergeBodies(parts[:last]), parts[last]})
	case 2:
		m = hcl.MergeBodies([]hcl.Body{hcl.EmptyBody(), parts[0], hcl.MergeBodies(parts[1:])})
	default:
		var fs []*hcl.File
		for _, p := range parts {
			fs = append(fs, &hcl.File{Body: p})
		}
		m = hcl.MergeFiles(fs)
	}
	sym.Assert(m.MissingItemRange() == parts[0].MissingItemRange(), "missing item range")
	c1, rem, d1 := m.PartialContent(s1)
	rest := checkUnion(parts, s1, true, c1, d1, "partial content")
	c2, d2 := rem.Content(s2)
	checkUnion(rest, s2, false, c2, d2, "remaining content")
	leftUnion(rest, rem, "attributes left")
	c3, d3 := m.Content(s2)
	checkUnion(parts, s2, false, c3, d3, "content")
	leftUnion(parts, m, "attributes")
	sym.ObserveInt("errors", errCount(d1)+errCount(d2))
	if len(c1.Attributes) > 1 {
		sym.Cover("attributes of several parts")
	}
	if len(c1.Blocks) > 1 {
		sym.Cover("blocks of several parts")
	}
	if errCount(d1) == 0 {
		sym.Cover("no error")
	}
}

// Empty: bodies without content, and content of nothing.
func Empty() {
	s := anySchema()
	var b hcl.Body
	switch sym.Choice(4) {
	case 0:
		b = hcl.EmptyBody()
	case 1:
		b = hcl.MergeBodies(nil)
	case 2:
		b = hcl.MergeBodies([]hcl.Body{hcl.EmptyBody(), hcl.MergeFiles(nil)})
	default:
		_, b, _ = hcl.EmptyBody().PartialContent(s)
	}
	c, d := b.Content(s)
	checkUnion(nil, s, false, c, d, "empty content")
	leftUnion(nil, b, "attributes of nothing")
	b.MissingItemRange()
}

// MissingRange: the range content carries for missing items is that of the body.
func MissingRange() {
	m := hcl.MergeBodies([]hcl.Body{nativePart(1, "1.hcl"), nativePart(1, "2.hcl")})
	c, _, _ := m.PartialContent(anySchema())
	sym.Assert(c.MissingItemRange == m.MissingItemRange(), "merged content carries the missing item range")
}
