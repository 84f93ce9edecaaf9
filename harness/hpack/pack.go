// Package hpack holds the harnesses about packed bodies.
package hpack

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// sameBody asserts that a packed body describes the parsed one.
func sameBody(src []byte, b *hclsyntax.Body, p *hclpack.Body, ctx *hcl.EvalContext) {
	sym.Assert(p.MissingItemRange() == b.EndRange, "range for missing items")
	sym.Assert(len(p.Attributes) == len(b.Attributes), "all the attributes")
	for _, n := range lib.AttrNames(b.Attributes) {
		a := b.Attributes[n]
		pa, ok := p.Attributes[n]
		sym.Assert(ok, "an attribute of the same name")
		if !ok {
			continue
		}
		sym.Cover("attribute")
		sym.Assert(pa.Range == a.SrcRange && pa.NameRange == a.NameRange, "attribute ranges")
		sameExpr(src, a, &pa.Expr, ctx)
	}
	sym.Assert(len(p.ChildBlocks) == len(b.Blocks), "all the blocks")
	for i := range p.ChildBlocks {
		if i >= len(b.Blocks) {
			return
		}
		w, g := b.Blocks[i], &p.ChildBlocks[i]
		sym.Cover("block")
		sym.Assert(g.Type == w.Type && g.TypeRange == w.TypeRange, "block type")
		sym.Assert(g.DefRange == w.AsHCLBlock().DefRange, "block header range")
		sym.Assert(len(g.Labels) == len(w.Labels) && len(g.LabelRanges) == len(w.LabelRanges), "all the labels")
		for j := range g.Labels {
			if j < len(w.Labels) && j < len(g.LabelRanges) {
				sym.Assert(g.Labels[j] == w.Labels[j] && g.LabelRanges[j] == w.LabelRanges[j], "labels in order")
			}
		}
		sameBody(src, w.Body, &g.Body, ctx)
	}
}

func sameExpr(src []byte, a *hclsyntax.Attribute, e *hclpack.Expression, ctx *hcl.EvalContext) {
	r := e.Range()
	lib.RangeOK(src, r, "packed expression")
	sym.Assert(lib.Covers(a.SrcRange, r) && r.End == a.SrcRange.End && r.Start.Byte >= a.EqualsRange.End.Byte, "the expression is the one of the attribute")
	sym.Assert(lib.Covers(r, a.Expr.Range()), "the whole expression")
	sym.Assert(e.StartRange() == a.Expr.StartRange(), "start of the expression")
	pe, diags := e.Parse()
	sym.Assert(!diags.HasErrors(), "the packed source is valid")
	if diags.HasErrors() {
		return
	}
	sym.Assert(pe.Range() == a.Expr.Range(), "range of the parsed expression")
	sym.Assert(lib.Dump(pe) == lib.Dump(a.Expr), "the same expression")
	v, d := a.Expr.Value(ctx)
	pv, pd := e.Value(ctx)
	sym.Assert(d.HasErrors() == pd.HasErrors(), "the same evaluation outcome")
	sym.Assert(v.RawEquals(pv), "the same value")
	for i, x := range d {
		if i < len(pd) && x.Subject != nil {
			sym.Assert(pd[i].Subject != nil && *pd[i].Subject == *x.Subject, "errors reported in the same place")
		}
	}
	vs, pvs := a.Expr.Variables(), e.Variables()
	sym.Assert(len(vs) == len(pvs), "the same variables")
	for i := range vs {
		if i < len(pvs) {
			sym.Assert(vs[i].RootName() == pvs[i].RootName() && vs[i].SourceRange() == pvs[i].SourceRange(), "the same variables in order")
		}
	}
	sym.ObserveStr("value", lib.Show(pv))
}

// packed asserts the property for one source.
func packed(src []byte, start hcl.Pos) {
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", start)
	p, pdiags := hclpack.PackNativeFile(src, "t.hcl", start)
	sym.Assert(pdiags.HasErrors() == diags.HasErrors(), "exactly invalid source is rejected")
	sym.Assume(!diags.HasErrors())
	sym.Assert(p != nil, "valid source is packed")
	sym.Cover("valid")
	sameBody(src, f.Body.(*hclsyntax.Body), p, lib.Ctx())
	if sym.Param("json", 1) != 0 {
		roundTrip(p)
	}
}

// roundTrip asserts that marshalling and unmarshalling keep a body.
func roundTrip(p *hclpack.Body) {
	js, err := p.MarshalJSON()
	sym.Assert(err == nil, "the body is marshalled")
	sym.ObserveBytes("json", js)
	var q hclpack.Body
	err = q.UnmarshalJSON(js)
	sym.Assert(err == nil, "the body is unmarshalled")
	equalBody(p, &q)
}

func equalBody(a, b *hclpack.Body) {
	sym.Assert(a.MissingItemRange_ == b.MissingItemRange_, "range for missing items kept")
	sym.Assert(len(a.Attributes) == len(b.Attributes), "attributes kept")
	for _, n := range attrNames(a) {
		w := a.Attributes[n]
		g, ok := b.Attributes[n]
		sym.Assert(ok, "attribute name kept")
		sym.Assert(g.Range == w.Range && g.NameRange == w.NameRange, "attribute ranges kept")
		sym.Assert(string(g.Expr.Source) == string(w.Expr.Source) && g.Expr.SourceType == w.Expr.SourceType, "expression source kept")
		sym.Assert(g.Expr.Range_ == w.Expr.Range_ && g.Expr.StartRange_ == w.Expr.StartRange_, "expression ranges kept")
	}
	sym.Assert(len(a.ChildBlocks) == len(b.ChildBlocks), "blocks kept")
	for i := range a.ChildBlocks {
		if i >= len(b.ChildBlocks) {
			return
		}
		w, g := &a.ChildBlocks[i], &b.ChildBlocks[i]
		sym.Assert(g.Type == w.Type && g.TypeRange == w.TypeRange && g.DefRange == w.DefRange, "block kept")
		sym.Assert(len(g.Labels) == len(w.Labels) && len(g.LabelRanges) == len(w.LabelRanges), "labels kept")
		for j := range w.Labels {
			if j < len(g.Labels) && j < len(g.LabelRanges) {
				sym.Assert(g.Labels[j] == w.Labels[j] && g.LabelRanges[j] == w.LabelRanges[j], "labels kept in order")
			}
		}
		equalBody(&w.Body, &g.Body)
	}
}

func attrNames(b *hclpack.Body) []string {
	var ret []string
	for n := range b.Attributes {
		ret = append(ret, n)
	}
	for i := range ret {
		for j := i; j > 0 && ret[j] < ret[j-1]; j-- {
			ret[j], ret[j-1] = ret[j-1], ret[j]
		}
	}
	return ret
}

// Free: any configuration of n symbolic bytes.
func Free() { packed(lib.ConfSrc(sym.Param("n", 6)), lib.Start) }

// Expr: an attribute set to any expression, followed by a block.
func Expr() {
	var src []byte
	src = append(src, "a = "...)
	src = append(src, lib.ExprSrc(sym.Param("n", 4))...)
	src = append(src, "\nb {\n}\n"...)
	packed(src, lib.Start)
}

// Docs: documents with any byte replaced.
func Docs() { packed(lib.Mutate(packDocs, lib.ConfAlpha), lib.Start) }

var packDocs = []string{
	"a = (n) + 1 # x\nb \"p\" q {\n  a = l[n]\n  c { d = 1 }\n}\n",
	"a = /* x */ m.x.y\nb = o.*.k\nc = l[*].k",
	"a = <<X\nf ${n}\nX\nb = [\n1, n\n]\n",
	"a = (l[0])[1]\nb { c = -(n) }\n",
	"b {\n a = <<-X\n  t\n X\n}\nc = f(n)(1)\n",
	"a = {b = (n)}.b\nc = (n ? \"${t}\" : (1))\n",
	"a = (\n n)\n\nb = [for x in l : (x)][0]",
}

// Shift: a document that starts at any of several positions.
func Shift() {
	src := lib.Mutate(packDocs, lib.ConfAlpha)
	sym.ObserveBytes("src", src)
	at := []hcl.Pos{{Byte: 7, Line: 1, Column: 8}, {Byte: 1, Line: 2, Column: 1}, {Byte: 900, Line: 30, Column: 40}}[sym.Choice(sym.Param("starts", 1))]
	p, diags := hclpack.PackNativeFile(src, "t.hcl", lib.Start)
	sym.Assume(!diags.HasErrors())
	q, diags := hclpack.PackNativeFile(src, "t.hcl", at)
	sym.Assert(!diags.HasErrors(), "valid source is packed")
	sym.Cover("valid")
	shifted(p, q, at.Byte)
}

func shifted(p, q *hclpack.Body, by int) {
	sym.Assert(len(p.Attributes) == len(q.Attributes) && len(p.ChildBlocks) == len(q.ChildBlocks), "the same items")
	for _, n := range attrNames(p) {
		a, b := p.Attributes[n], q.Attributes[n]
		sym.Assert(string(a.Expr.Source) == string(b.Expr.Source), "the same expression source")
		sym.Assert(a.Expr.Range_.Start.Byte+by == b.Expr.Range_.Start.Byte && a.Expr.Range_.End.Byte+by == b.Expr.Range_.End.Byte, "the expression range moves along")
	}
	for i := range p.ChildBlocks {
		if i < len(q.ChildBlocks) {
			shifted(&p.ChildBlocks[i].Body, &q.ChildBlocks[i].Body, by)
		}
	}
}

// Positions: bodies with any consistent source positions in several files.
func Positions() {
	big := int64(sym.Param("max", 1<<20))
	k := sym.Param("k", 3)
	files := []string{"a", "b"}[:sym.Param("files", 2)]
	poss := make([][]hcl.Pos, len(files))
	for f := range files {
		var at hcl.Pos
		for i := 0; i < k; i++ {
			d := sym.Int64()
			sym.Assume(d >= 0 && d < big)
			at.Byte += int(d)
			l := sym.Int64()
			sym.Assume(l >= 0 && l < big)
			c := sym.Int64()
			sym.Assume(c >= 0 && c < big)
			if i > 0 && d == 0 {
				// the same position
				sym.Assume(l == 0 && c == 0)
			} else if i > 0 && l == 0 {
				at.Column += int(c)
			} else {
				at.Column = int(c)
			}
			at.Line += int(l)
			poss[f] = append(poss[f], at)
		}
	}
	rng := func(f, i, j int) hcl.Range {
		return hcl.Range{Filename: files[f], Start: poss[f][i], End: poss[f][j]}
	}
	f := sym.Choice(len(files))
	b := &hclpack.Body{MissingItemRange_: rng(f, 0, sym.Choice(k))}
	f = sym.Choice(len(files))
	i := sym.Choice(k)
	if sym.Choice(2) == 0 {
		b.Attributes = map[string]hclpack.Attribute{"x": {
			Range:     rng(f, i, k-1),
			NameRange: rng(f, 0, i),
			Expr: hclpack.Expression{
				Source:      []byte("1"),
				SourceType:  hclpack.ExprNative,
				Range_:      rng(f, i, i),
				StartRange_: rng(f, 0, k-1),
			},
		}}
	} else {
		b.ChildBlocks = []hclpack.Block{{
			Type:        "x",
			Labels:      []string{"y"},
			DefRange:    rng(f, 0, k-1),
			TypeRange:   rng(f, i, k-1),
			LabelRanges: []hcl.Range{rng(f, i, i)},
			Body:        hclpack.Body{MissingItemRange_: rng(len(files)-1, 0, i)},
		}}
	}
	roundTrip(b)
	sym.Cover("positions")
}
