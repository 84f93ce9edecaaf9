package hext

import (
	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

var schemas = []*hcl.BodySchema{
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c"}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "c"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "a", LabelNames: []string{"x"}}},
	},
	{
		Blocks: []hcl.BlockHeaderSchema{{Type: "c"}, {Type: "d"}, {Type: "b"}},
	},
}

// without gives the items without the removed blocks, at every level.
func without(items []*lib.RItem, typ string) []*lib.RItem {
	var out []*lib.RItem
	for _, it := range items {
		if it.Block && it.Name == typ {
			continue
		}
		n := *it
		n.Body = without(it.Body, typ)
		out = append(out, &n)
	}
	return out
}

func blocks(items []*lib.RItem, typ string) (n int) {
	for _, it := range items {
		if it.Block && it.Name == typ {
			n++
		}
	}
	return n
}

func left(b hcl.Body, items []*lib.RItem, c *lib.RContent, what string) {
	as, d := b.JustAttributes()
	lib.CheckAttrs(lib.LeftAttrs(items, c), as, "attributes left "+what)
	sym.Assert(d.HasErrors() == (len(lib.LeftBlocks(items, c)) > 0), "blocks left "+what)
}

// Deep: content of deeply transformed bodies in two steps. The transformer
// removes the blocks of one type.
func Deep() {
	g := &lib.GenBody{Names: "abcd", Left: sym.Param("n", 3), MaxLabels: sym.Param("labels", 1)}
	all := g.Body(sym.Param("depth", 1))
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	s1, s2 := schemas[sym.Choice(len(schemas))], schemas[sym.Choice(len(schemas))]
	sym.Freeze(s1)
	sym.Freeze(s2)
	calls := 0
	remove := transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		calls++
		_, remain, diags := b.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "d"}}})
		var warn hcl.Diagnostics
		if len(diags) > 0 {
			warn = hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "labels"}}
		}
		return transform.BodyWithDiagnostics(remain, warn)
	})
	var tr transform.Transformer = remove
	each := 1
	if sym.Choice(2) == 1 {
		tr = transform.Chain([]transform.Transformer{remove, transform.TransformerFunc(func(b hcl.Body) hcl.Body { calls++; return b })})
		each = 2
	}
	items := without(all, "d")
	body := transform.Deep(f.Body, tr)
	sym.Assert(calls == each, "the body is transformed once")
	mi := f.Body.MissingItemRange()
	nested := func(ref []*lib.RItem, got hcl.Blocks, what string) {
		for i, b := range got {
			if i >= len(ref) {
				return
			}
			before := calls
			c, d := b.Body.Content(s2)
			r := lib.RefExtract(ref[i].Body, nil, s2, false)
			lib.CheckContent(r, c, what+" nested")
			lib.CheckErrs(r, b.Body.MissingItemRange(), d, what+" nested")
			sym.Assert(calls == before+each*len(r.Blocks), what+": every nested body is transformed once")
			sym.Cover("nested")
		}
	}
	before := calls
	c1, rem, d1 := body.PartialContent(s1)
	r1 := lib.RefExtract(items, nil, s1, true)
	lib.CheckContent(r1, c1, "partial content")
	lib.CheckErrs(r1, mi, d1, "partial content")
	sym.Assert(calls == before+each*len(r1.Blocks), "the body of every block is transformed once")
	sym.Assert(c1.MissingItemRange == mi && rem.MissingItemRange() == mi && body.MissingItemRange() == mi, "missing item range")
	nested(r1.Blocks, c1.Blocks, "partial content")

	before = calls
	c2, d2 := rem.Content(s2)
	r2 := lib.RefExtract(items, r1, s2, false)
	lib.CheckContent(r2, c2, "remaining content")
	lib.CheckErrs(r2, mi, d2, "remaining content")
	sym.Assert(calls == before+each*len(r2.Blocks), "the body of every remaining block is transformed once")
	nested(r2.Blocks, c2.Blocks, "remaining content")

	left(rem, items, r1, "after one step")
	left(body, items, nil, "at the end")
	sh := transform.Shallow(f.Body, remove)
	left(sh, items, nil, "by a shallow transformation")
	// the body given is not changed
	left(f.Body, all, nil, "in the original")
	if len(items) != len(all) {
		sym.Cover("removed")
	}
	if len(r2.Blocks) > 0 {
		sym.Cover("remaining")
	}
}

// Errors: bodies that carry diagnostics.
func Errors() {
	g := &lib.GenBody{Names: "abc", Left: sym.Param("n", 2), MaxLabels: 1}
	items := g.Body(0)
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	s := schemas[sym.Choice(len(schemas))]
	var given hcl.Diagnostics
	errs := false
	for i := sym.Choice(3); i > 0; i-- {
		d := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "given"}
		if sym.Bool() {
			d.Severity = hcl.DiagError
			errs = true
		}
		given = append(given, d)
	}
	body := transform.BodyWithDiagnostics(f.Body, given)
	lost := false
	if errs && sym.Choice(2) == 1 {
		body = transform.NewErrorBody(given)
		lost = true
	}
	check := func(got, own hcl.Diagnostics, what string) {
		n := len(given)
		sym.Assert(len(got) >= n, what+": the diagnostics are reported")
		for i, d := range given {
			if i < len(got) {
				sym.Assert(got[i] == d, what+": the diagnostics come first and once")
			}
		}
		if errs {
			sym.Assert(len(got) == n, what+": nothing else is reported")
			return
		}
		sym.Assert(len(got) == n+len(own), what+": the problems of the content are reported too")
	}
	for k := 0; k < 2; k++ {
		c, d := body.Content(s)
		wc, wd := f.Body.Content(s)
		check(d, wd, "content")
		sym.Assert(c != nil, "content is returned")
		if !errs {
			sym.Assert(len(c.Attributes) == len(wc.Attributes) && len(c.Blocks) == len(wc.Blocks), "the content is complete")
		} else {
			sym.Assert(len(c.Attributes) == 0 && len(c.Blocks) == 0, "there is no content after errors")
		}
		as, d := body.JustAttributes()
		was, wd := f.Body.JustAttributes()
		check(d, wd, "attributes")
		sym.Assert(errs || len(as) == len(was), "the attributes are complete")
		pc, rem, d := body.PartialContent(s)
		_, wrem, wd := f.Body.PartialContent(s)
		check(d, wd, "partial content")
		sym.Assert(pc != nil && rem != nil, "a remaining body is returned")
		if rem == nil {
			return
		}
		// what remains does not report the diagnostics again
		_, d = rem.JustAttributes()
		if errs {
			if lost {
				sym.Assert(len(d) == 0, "nothing remains of a body that could not be made")
			} else {
				left(rem, items, nil, "after errors")
			}
		} else {
			_, wd = wrem.JustAttributes()
			sym.Assert(len(d) == len(wd), "the rest reports its own problems only")
		}
		rem.MissingItemRange()
		if !lost {
			sym.Assert(body.MissingItemRange() == f.Body.MissingItemRange(), "missing item range")
		}
	}
	if errs {
		sym.Cover("errors")
	}
	if len(given) > 0 && !errs {
		sym.Cover("warnings")
	}
}

// Include: a body with include blocks offers its own content and that of the
// included bodies, and reports what is wrong with the include blocks.
func Include() {
	g := &lib.GenBody{Names: "abc", Left: sym.Param("n", 2), MaxLabels: 1}
	items := g.Body(0)
	good, bad := 0, 0
	for i := sym.Choice(3); i > 0; i-- {
		k := sym.Choice(7)
		p := []string{"path = \"p\"", "path = \"q\"", "", "path = \"p\"\nx = 1", "path = []", "path = u", "path = \"p\""}[k]
		if k == 6 {
			g.Src = append(g.Src, "include \"l\" {\n"...)
		} else {
			g.Src = append(g.Src, "include {\n"...)
		}
		g.Src = append(g.Src, p...)
		g.Src = append(g.Src, "\n}\n"...)
		if k == 0 {
			good++
		} else {
			bad++
		}
	}
	h := &lib.GenBody{Names: "xyz", Left: 1, MaxLabels: 1}
	inc := h.Body(0)
	sym.ObserveBytes("src", g.Src)
	sym.ObserveBytes("included", h.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	p, diags := hclsyntax.ParseConfig(h.Src, "p.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the included body is valid")
	tr := include.Transformer("include", nil, include.MapResolver(map[string]hcl.Body{"p": p.Body}))
	body := tr.TransformBody(f.Body)
	s := &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}, {Name: "c"}, {Name: "x"}, {Name: "y"}, {Name: "z"}},
		Blocks: []hcl.BlockHeaderSchema{
			{Type: "a", LabelNames: []string{"l"}}, {Type: "b", LabelNames: []string{"l"}}, {Type: "c", LabelNames: []string{"l"}},
			{Type: "x", LabelNames: []string{"l"}}, {Type: "y", LabelNames: []string{"l"}}, {Type: "z", LabelNames: []string{"l"}},
		},
	}
	r := lib.RefExtract(items, nil, s, false)
	ri := lib.RefExtract(inc, nil, s, false)
	wrong := len(r.Errs) > 0 || good > 0 && len(ri.Errs) > 0 || good > 1 && len(ri.Attrs) > 0
	c, d := body.Content(s)
	sym.Assert(d.HasErrors() == (bad > 0 || wrong), "exactly wrong includes and content are reported")
	if !d.HasErrors() {
		n := len(r.Attrs)
		if good > 0 {
			n += len(ri.Attrs)
		}
		sym.Assert(len(c.Attributes) == n, "attributes of both bodies")
		sym.Assert(len(c.Blocks) == len(r.Blocks)+good*len(ri.Blocks), "blocks of both bodies")
		for i, b := range c.Blocks {
			if i < len(r.Blocks) {
				lib.CheckBlock(r.Blocks[i], b, "own blocks first")
			} else if len(ri.Blocks) > 0 {
				lib.CheckBlock(ri.Blocks[0], b, "included blocks")
			}
		}
		sym.Cover("included")
	}
	// in two steps
	_, rem, d1 := body.PartialContent(&hcl.BodySchema{Attributes: s.Attributes})
	sym.Assert(rem != nil, "a remaining body")
	c2, d2 := rem.Content(s)
	sym.Assert((d1.HasErrors() || d2.HasErrors()) == (bad > 0 || wrong), "reported in two steps")
	sym.Assert(d1.HasErrors() || c2 != nil && len(c2.Attributes) == 0, "attributes are taken once")
	body.JustAttributes()
	body.MissingItemRange()
	if bad > 0 {
		sym.Cover("bad")
	}
}

// kept is a body that always returns the content it holds.
type kept struct {
	hcl.Body
	c *hcl.BodyContent
}

func (k kept) Content(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) { return k.c, nil }

func (k kept) PartialContent(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	return k.c, k, nil
}

// Again: content that is taken repeatedly from a body that keeps it.
func Again() {
	n := sym.Choice(sym.Param("n", 3) + 1)
	k := kept{hcl.EmptyBody(), &hcl.BodyContent{Attributes: hcl.Attributes{}}}
	labels := sym.StrIn("abc", n)
	for i := 0; i < n; i++ {
		k.c.Blocks = append(k.c.Blocks, &hcl.Block{Type: "c", Labels: []string{labels[i : i+1]}, Body: kept{hcl.EmptyBody(), &hcl.BodyContent{}}})
	}
	sym.ObserveStr("labels", labels)
	sym.Freeze(k.c)
	calls := 0
	body := transform.Deep(k, transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		calls++
		_, ok := b.(kept)
		sym.Assert(ok, "the transformer gets the bodies as they are")
		return b
	}))
	for i := 0; i < 3; i++ {
		calls = 0
		var c *hcl.BodyContent
		if sym.Bool() {
			c, _ = body.Content(&hcl.BodySchema{})
		} else {
			c, _, _ = body.PartialContent(&hcl.BodySchema{})
		}
		sym.Assert(len(c.Blocks) == n && calls == n, "the body of every block is transformed once each time")
		for j, b := range c.Blocks {
			_, ok := k.c.Blocks[j].Body.(kept)
			sym.Assert(ok, "the blocks of the original are not changed")
			sym.Assert(b.Labels[0] == labels[j:j+1], "the blocks are those of the body")
			sym.Cover("block")
		}
	}
}
