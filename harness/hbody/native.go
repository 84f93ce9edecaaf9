// Package hbody holds the harnesses about content extraction.
package hbody

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

var schemas = []*hcl.BodySchema{
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"x"}}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "c"}, {Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "a", LabelNames: []string{"x", "y"}}},
	},
	{
		Blocks: []hcl.BlockHeaderSchema{{Type: "c"}, {Type: "d", LabelNames: []string{"x"}}},
	},
	{},
}

func anySchema() *hcl.BodySchema {
	s := schemas[sym.Choice(len(schemas))]
	sym.Freeze(s)
	return s
}

// nested checks the bodies of blocks under a schema.
func nested(ref []*lib.RItem, got hcl.Blocks, s *hcl.BodySchema, what string) {
	for i, b := range got {
		if i >= len(ref) || b.Body == nil {
			return
		}
		c, d := b.Body.Content(s)
		r := lib.RefExtract(ref[i].Body, nil, s, false)
		lib.CheckContent(r, c, what+" nested")
		lib.CheckErrs(r, b.Body.MissingItemRange(), d, what+" nested")
		sym.Cover("nested")
	}
}

// Steps: content extracted in two steps from any native body.
func Steps() {
	g := &lib.GenBody{Names: "abcd", Left: sym.Param("n", 3), MaxLabels: sym.Param("labels", 2)}
	items := g.Body(sym.Param("depth", 0))
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	s1, s2 := anySchema(), anySchema()
	twoSteps(f.Body, items, s1, s2)
}

func twoSteps(body hcl.Body, items []*lib.RItem, s1, s2 *hcl.BodySchema) {
	mi := body.MissingItemRange()
	c1, rem, d1 := body.PartialContent(s1)
	r1 := lib.RefExtract(items, nil, s1, true)
	lib.CheckContent(r1, c1, "partial content")
	lib.CheckErrs(r1, mi, d1, "partial content")
	sym.Assert(c1.MissingItemRange == mi && rem.MissingItemRange() == mi, "missing item range")
	nested(r1.Blocks, c1.Blocks, s2, "partial content")

	c2, d2 := rem.Content(s2)
	r2 := lib.RefExtract(items, r1, s2, false)
	lib.CheckContent(r2, c2, "remaining content")
	lib.CheckErrs(r2, mi, d2, "remaining content")

	_, rem2, _ := rem.PartialContent(s2)
	r2 = lib.RefExtract(items, r1, s2, true)
	left(rem, items, r1, "after one step")
	left(rem2, items, r2, "after two steps")

	// the first body is still whole
	left(body, items, nil, "at the end")
	c3, d3 := body.Content(s2)
	r3 := lib.RefExtract(items, nil, s2, false)
	lib.CheckContent(r3, c3, "content")
	lib.CheckErrs(r3, mi, d3, "content")
	sym.ObserveInt("blocks", len(c1.Blocks)+len(c3.Blocks))
	if len(r1.Attrs)+len(r2.Attrs) > 1 {
		sym.Cover("attributes")
	}
	if len(r1.Blocks)+len(r2.Blocks) > 1 {
		sym.Cover("blocks")
	}
}

// left checks what a remaining body holds.
func left(b hcl.Body, items []*lib.RItem, c *lib.RContent, what string) {
	as, d := b.JustAttributes()
	lib.CheckAttrs(lib.LeftAttrs(items, c), as, "attributes left "+what)
	sym.Assert(d.HasErrors() == (len(lib.LeftBlocks(items, c)) > 0), "blocks left "+what)
}
