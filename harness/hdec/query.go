package hdec

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// rangeSpecs lead to single items.
var rangeSpecs = []func() *spec{
	func() *spec { return attr("a", dyn) },
	func() *spec { return expr("v") },
	func() *spec { return blocks("block", "b", label(0, "l")) },
	func() *spec { return blocks("block", "b", attr("a", dyn)) },
	func() *spec { return blocks("list", "b", label(0, "l")) },
	func() *spec { return blocks("list", "b", deflt(attr("a", dyn), label(0, "l"))) },
	func() *spec { return blocks("btuple", "b", attr("a", dyn)) },
	func() *spec { return blocks("set", "b", deflt(label(0, "l"), attr("a", dyn))) },
	func() *spec { return keyed(blocks("map", "b", label(0, "l")), "k") },
	func() *spec { return keyed(blocks("map", "b", attr("a", str)), "k", "m") },
	func() *spec { return keyed(blocks("bobject", "b", label(0, "l")), "k", "m") },
	func() *spec { return keyed(blocks("bobject", "b", tfunc(label(0, "l"))), "k") },
	func() *spec { return blocks("block", "b", blocks("list", "b", attr("a", dyn))) },
	func() *spec { return blocks("list", "b", battrs("a", str)) },
	func() *spec { return texpr(attr("a", str)) },
	func() *spec { return deflt(blocks("block", "b", attr("a", dyn)), blocks("block", "c", attr("a", dyn))) },
	func() *spec { return blocks("block", "b", tuple(attr("a", dyn), label(0, "l"))) },
}

// rng is the range of what a specification takes its value from.
func (s *spec) rng(b *hclsyntax.Body, labels []hcl.Range) hcl.Range {
	switch s.kind {
	case "object", "tuple":
		return b.MissingItemRange()
	case "attr":
		if a, ok := b.Attributes[s.name]; ok {
			return a.Expr.Range()
		}
		return b.MissingItemRange()
	case "label":
		return labels[s.index]
	case "default", "texpr", "tfunc":
		return s.sub[0].rng(b, labels)
	case "literal":
		return hcl.Range{Filename: "<unknown>"}
	case "expr":
		return hcl.Range{Filename: "spec", Start: lib.Start, End: hcl.Pos{Line: 1, Column: 2, Byte: 1}}
	}
	for _, n := range b.Blocks {
		if n.Type == s.name {
			if s.kind == "attrs" {
				return n.TypeRange
			}
			return s.sub[0].rng(n.Body, n.LabelRanges[len(s.labels):])
		}
	}
	return b.MissingItemRange()
}

// Query: what is said about a specification and a body without decoding.
func Query() {
	all := append(append([]func() *spec(nil), rangeSpecs...), specs...)
	i := 0
	if sym.Param("gen", 0) == 0 {
		i = sym.Choice(len(all))
	}
	s := all[i]()
	if sym.Param("gen", 0) == 1 {
		s = gen()
	}
	g := &fit{max: sym.Param("max", 2)}
	items := g.body(s)
	sym.ObserveBytes("src", g.src)
	sym.ObserveInt("spec", i)
	f, diags := hclsyntax.ParseConfig(g.src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	real := s.build()

	// the schema
	want := &hcl.BodySchema{}
	s.schema(want)
	got := hcldec.ImpliedSchema(real)
	for _, w := range want.Attributes {
		ok := false
		for _, a := range got.Attributes {
			ok = ok || a == w
		}
		sym.Assert(ok, "the schema has each attribute")
	}
	for _, w := range want.Blocks {
		ok := false
		for _, b := range got.Blocks {
			ok = ok || b.Type == w.Type && sameStrs(b.LabelNames, w.LabelNames)
		}
		sym.Assert(ok, "the schema has each block type")
	}
	for _, a := range got.Attributes {
		ok := false
		for _, w := range want.Attributes {
			ok = ok || a.Name == w.Name
		}
		sym.Assert(ok, "the schema has no other attributes")
	}
	for _, b := range got.Blocks {
		ok := false
		for _, w := range want.Blocks {
			ok = ok || b.Type == w.Type
		}
		sym.Assert(ok, "the schema has no other block types")
	}

	// nested specifications
	nested := hcldec.ChildBlockTypes(real)
	for name, n := range nested {
		w := s.find(name)
		sym.Assert(w != nil, "only block types of the specification")
		if w != nil && w.kind != "attrs" {
			sym.Assert(hcldec.ImpliedType(n).Equals(w.sub[0].implied()), "the specification of a nested body")
		}
	}
	for _, w := range want.Blocks {
		if s.find(w.Type).kind != "attrs" {
			sym.Assert(nested[w.Type] != nil, "every block type has its nested specification")
		}
	}

	r := &ref{vals: vals(cty.StringVal("x"))}
	r.body(s, items, nil, false)
	rng := hcldec.SourceRange(f.Body, real)
	sym.ObserveInt("from", rng.Start.Byte)
	if r.errs == 0 {
		w := s.rng(f.Body.(*hclsyntax.Body), nil)
		sym.Assert(rng == w, "the source range is that of the item")
		sym.Cover("range")
	}
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
