package heval

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// sameDiags reports whether two lists hold the same diagnostics.
func sameDiags(a, b hcl.Diagnostics) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		found := false
		for i, y := range b {
			if !used[i] && x.Severity == y.Severity && x.Summary == y.Summary && *x.Subject == *y.Subject {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func again(src string, x, y, x2 cty.Value) {
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	sym.ObserveStr("x2", lib.Show(x2))
	e := parse(src)
	ctx, ctx2 := scope(x, y), scope(x2, y)
	sym.Freeze(ctx)
	sym.Freeze(ctx2)
	v1, d1 := e.Value(ctx)
	sym.ObserveStr("val", lib.Show(v1))
	v2, d2 := e.Value(ctx2)
	sym.SetMapOrder(1)
	v3, d3 := e.Value(ctx)
	sym.Assert(v1.RawEquals(v3), "evaluating again gives the same value")
	sym.Assert(sameDiags(d1, d3), "evaluating again gives the same diagnostics")
	sym.SetMapOrder(2)
	v4, d4 := parse(src).Value(ctx2)
	sym.Assert(v2.RawEquals(v4), "an earlier evaluation has no influence on a later one")
	sym.Assert(sameDiags(d2, d4), "an earlier evaluation has no influence on later diagnostics")
	child := ctx2.NewChild()
	v5, d5 := e.Value(child)
	sym.Assert(v5.RawEquals(v4) && sameDiags(d5, d4), "an empty child scope gives the same result")
	sym.Cover("again")
}

// Repeat1: every form evaluated repeatedly in two scopes.
func Repeat1() {
	f := forms[sym.Choice(len(forms))][0]
	x, x2 := lib.FewVals(), lib.Val([]int{22, 14, 3}[sym.Choice(3)])
	again(subst(f, "x", "y"), x, cty.StringVal("a"), x2)
}

// Repeat2: forms nested in forms.
func Repeat2() {
	f := forms[sym.Choice(len(forms))][0]
	g := forms[sym.Choice(len(forms))][0]
	x, x2 := lib.Val([]int{14, 18, 20, 22, 16}[sym.Choice(5)]), cty.NullVal(cty.DynamicPseudoType)
	again(subst(f, "("+subst(g, "x", "y")+")", "x"), x, cty.StringVal("a"), x2)
}

var bodySchema = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}, {Name: "z", Required: true}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"l"}}, {Type: "c"}, {Type: "d", LabelNames: []string{"l", "m"}}},
}

func showContent(c *hcl.BodyContent) string {
	s := ""
	var ns []string
	for n := range c.Attributes {
		ns = append(ns, n)
	}
	for i := 1; i < len(ns); i++ {
		for j := i; j > 0 && ns[j] < ns[j-1]; j-- {
			ns[j], ns[j-1] = ns[j-1], ns[j]
		}
	}
	for _, n := range ns {
		s += n + "@" + c.Attributes[n].Range.String() + ";"
	}
	for _, b := range c.Blocks {
		s += b.Type + "@" + b.DefRange.String()
		for _, l := range b.Labels {
			s += "," + l
		}
		s += ";"
	}
	return s
}

// Body: repeated content extraction from a body.
func Body() {
	var src []byte
	if sym.Param("mut", 0) != 0 {
		src = lib.Mutate(lib.ConfDocs, lib.ConfAlpha)
	} else {
		src = lib.ConfSrc(sym.Param("n", 1))
	}
	sym.ObserveBytes("src", src)
	sym.Freeze(src)
	f, pd := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Freeze(bodySchema)
	c1, d1 := f.Body.Content(bodySchema)
	p1, r1, e1 := f.Body.PartialContent(bodySchema)
	q1, g1 := r1.Content(bodySchema)
	a1, j1 := f.Body.JustAttributes()
	sym.SetMapOrder(1)
	a2, j2 := f.Body.JustAttributes()
	p2, r2, e2 := f.Body.PartialContent(bodySchema)
	c2, d2 := f.Body.Content(bodySchema)
	q2, g2 := r2.Content(bodySchema)
	sym.ObserveStr("content", showContent(c1))
	sym.Assert(showContent(c1) == showContent(c2) && sameDiags(d1, d2), "extracting content again gives the same")
	sym.Assert(showContent(p1) == showContent(p2) && sameDiags(e1, e2), "extracting part of the content again gives the same")
	sym.Assert(showContent(q1) == showContent(q2) && sameDiags(g1, g2), "the remainder is the same each time")
	sym.Assert(len(a1) == len(a2) && sameDiags(j1, j2), "listing the attributes again gives the same")
	f2, pd2 := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	c3, d3 := f2.Body.Content(bodySchema)
	sym.Assert(showContent(c3) == showContent(c1) && sameDiags(d3, d1) && len(pd) == len(pd2), "parsing again gives the same")
}
