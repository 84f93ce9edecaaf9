package hpack

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

var schemas = []*hcl.BodySchema{
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"x"}}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "c"}, {Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "a", LabelNames: []string{"x", "y"}}},
	},
	{
		Blocks: []hcl.BlockHeaderSchema{{Type: "c"}, {Type: "d", LabelNames: []string{"x"}}},
	},
	{},
}

// extract gives the expected content. A packed body reports a wrong number of
// labels for the block header.
func extract(items []*lib.RItem, hidden *lib.RContent, s *hcl.BodySchema, partial bool) *lib.RContent {
	r := lib.RefExtract(items, hidden, s, partial)
	for i, p := range r.Errs {
		for _, it := range items {
			if it.Block && (p == it.Open || lib.InInts(it.LabelPos, p)) {
				r.Errs[i] = it.Pos
			}
		}
	}
	return r
}

func nested(ref []*lib.RItem, got hcl.Blocks, s *hcl.BodySchema, what string) {
	for i, b := range got {
		if i >= len(ref) || b.Body == nil {
			return
		}
		c, d := b.Body.Content(s)
		r := extract(ref[i].Body, nil, s, false)
		lib.CheckContent(r, c, what+" nested")
		lib.CheckErrs(r, b.Body.MissingItemRange(), d, what+" nested")
		sym.Cover("nested")
	}
}

// left checks what a remaining body holds.
func left(b hcl.Body, items []*lib.RItem, c *lib.RContent, what string) {
	as, d := b.JustAttributes()
	lib.CheckAttrs(lib.LeftAttrs(items, c), as, "attributes left "+what)
	blocks := lib.LeftBlocks(items, c)
	sym.Assert(d.HasErrors() == (len(blocks) > 0), "blocks left "+what)
	var at []int
	for _, x := range d {
		sym.Assert(x.Subject != nil, "an unexpected block is reported in its place")
		if x.Subject != nil {
			at = append(at, x.Subject.Start.Byte)
		}
	}
	for i, bl := range blocks {
		if i == 0 || len(at) > 1 {
			sym.Assert(lib.InInts(at, bl.Pos), "unexpected blocks are reported in their place")
		}
	}
}

// Steps: content extracted in two steps from any packed body, possibly after
// it has been marshalled and unmarshalled.
func Steps() {
	g := &lib.GenBody{Names: "abcd", Left: sym.Param("n", 3), MaxLabels: sym.Param("labels", 2)}
	items := g.Body(sym.Param("depth", 0))
	sym.ObserveBytes("src", g.Src)
	s1, s2 := schemas[sym.Choice(len(schemas))], schemas[sym.Choice(len(schemas))]
	sym.Freeze(s1)
	sym.Freeze(s2)
	body, diags := hclpack.PackNativeFile(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	sym.SetMapOrder(sym.Choice(2))
	if sym.Param("json", 0) != 0 {
		js, err := body.MarshalJSON()
		sym.Assert(err == nil, "the body is marshalled")
		body = &hclpack.Body{}
		sym.Assert(body.UnmarshalJSON(js) == nil, "the body is unmarshalled")
	}
	mi := body.MissingItemRange()
	c1, rem, d1 := body.PartialContent(s1)
	r1 := extract(items, nil, s1, true)
	lib.CheckContent(r1, c1, "partial content")
	lib.CheckErrs(r1, mi, d1, "partial content")
	sym.Assert(c1.MissingItemRange == mi && rem.MissingItemRange() == mi, "missing item range")
	nested(r1.Blocks, c1.Blocks, s2, "partial content")

	c2, d2 := rem.Content(s2)
	r2 := extract(items, r1, s2, false)
	lib.CheckContent(r2, c2, "remaining content")
	lib.CheckErrs(r2, mi, d2, "remaining content")

	_, rem2, _ := rem.PartialContent(s2)
	r2 = extract(items, r1, s2, true)
	left(rem, items, r1, "after one step")
	left(rem2, items, r2, "after two steps")

	// the first body is still whole
	left(body, items, nil, "at the end")
	c3, d3 := body.Content(s2)
	r3 := extract(items, nil, s2, false)
	lib.CheckContent(r3, c3, "content")
	lib.CheckErrs(r3, mi, d3, "content")
	sym.ObserveInt("blocks", len(c1.Blocks)+len(c3.Blocks))
	if len(r1.Attrs)+len(r2.Attrs) > 1 {
		sym.Cover("attributes")
	}
	if len(r1.Blocks)+len(r2.Blocks) > 1 {
		sym.Cover("blocks")
	}
}
