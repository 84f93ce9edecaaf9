package hpack

import (
	"math/big"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

var madeSources = []struct {
	typ  hclpack.ExprSourceType
	text string
}{
	{hclpack.ExprNative, "n + 1"},
	{hclpack.ExprNative, "\"<&>${a}\\n\""},
	{hclpack.ExprTemplate, "<${a}>\n\t\"\\"},
	{hclpack.ExprTemplate, "\u2028%{if b}\u00e9%{endif}"},
	{hclpack.ExprLiteralJSON, "{\"a\": [1, null, \"x${a}\\u0041\"]}"},
	{hclpack.ExprLiteralJSON, "-1.5E2"},
	{hclpack.ExprLiteralJSON, "\"\""},
}

// madeBody is a body put together by hand.
func madeBody(left *int, depth int) hclpack.Body {
	b := hclpack.Body{MissingItemRange_: hcl.Range{Filename: "f", Start: lib.Start, End: lib.Start}}
	for i := 0; i < 2 && *left > 0 && sym.Choice(2) == 1; i++ {
		*left--
		s := madeSources[sym.Choice(len(madeSources))]
		if b.Attributes == nil {
			b.Attributes = map[string]hclpack.Attribute{}
		}
		name := []string{"x", "\"<é>\u2028"}[i]
		b.Attributes[name] = hclpack.Attribute{
			Range: b.MissingItemRange_, NameRange: b.MissingItemRange_,
			Expr: hclpack.Expression{Source: []byte(s.text), SourceType: s.typ, Range_: b.MissingItemRange_, StartRange_: b.MissingItemRange_},
		}
	}
	for i := 0; depth > 0 && i < 2 && *left > 0 && sym.Choice(2) == 1; i++ {
		*left--
		bl := hclpack.Block{Type: "b", DefRange: b.MissingItemRange_, TypeRange: b.MissingItemRange_}
		for k := sym.Choice(3); k > 0; k-- {
			bl.Labels = append(bl.Labels, []string{"l", "", "\\\"\n&"}[sym.Choice(3)])
			bl.LabelRanges = append(bl.LabelRanges, b.MissingItemRange_)
		}
		bl.Body = madeBody(left, depth-1)
		b.ChildBlocks = append(b.ChildBlocks, bl)
	}
	return b
}

// Made: bodies put together by hand with expressions of every syntax.
func Made() {
	left := sym.Param("n", 3)
	b := madeBody(&left, sym.Param("depth", 2))
	roundTrip(&b)
	if len(b.Attributes) > 0 {
		sym.Cover("attributes")
	}
	if len(b.ChildBlocks) > 0 {
		sym.Cover("blocks")
	}
}

// refJSON is the value a JSON text denotes, false if that is not defined.
func refJSON(n *lib.JNode) (cty.Value, bool) {
	switch n.Kind {
	case '0':
		return cty.NullVal(cty.DynamicPseudoType), true
	case 't':
		return cty.True, true
	case 'f':
		return cty.False, true
	case 'n':
		f, _, err := big.ParseFloat(n.Text, 10, 512, big.ToNearestEven)
		return cty.NumberVal(f), err == nil
	case 's':
		return cty.StringVal(n.Text), true
	case '[':
		var vs []cty.Value
		for _, e := range n.Elems {
			v, ok := refJSON(e)
			if !ok {
				return v, false
			}
			vs = append(vs, v)
		}
		return cty.TupleVal(vs), true
	}
	vs := map[string]cty.Value{}
	for i, e := range n.Elems {
		v, ok := refJSON(e)
		if _, dup := vs[n.Names[i]]; dup || !ok {
			return v, false
		}
		vs[n.Names[i]] = v
	}
	return cty.ObjectVal(vs), true
}

// Syntaxes: an expression of each syntax means what that syntax says.
func Syntaxes() {
	typ := []hclpack.ExprSourceType{hclpack.ExprNative, hclpack.ExprTemplate, hclpack.ExprLiteralJSON}[sym.Choice(3)]
	fr := [][2]string{{"", ""}, {"[", "]"}, {"\"", "\""}, {"{\"a\":", "}"}, {"${", "}"}, {"1", "2"}}[sym.Choice(6)]
	src := []byte(fr[0])
	src = append(src, sym.BytesIn("an1[]{}.,:\\ \"$+-e", sym.Param("n", 2))...)
	src = append(src, fr[1]...)
	sym.ObserveBytes("src", src)
	rng := hcl.Range{Filename: "t.hcl", Start: lib.Start, End: lib.Start}
	e := &hclpack.Expression{Source: src, SourceType: typ, Range_: rng, StartRange_: rng}
	ctx := lib.Ctx()
	v, diags := e.Value(ctx)
	sym.ObserveBool("errors", diags.HasErrors())
	if typ == hclpack.ExprLiteralJSON {
		var want cty.Value
		ok := false
		if n := lib.RefJSON(src); n != nil {
			if want, ok = refJSON(n); !ok {
				return
			}
		}
		if !ok {
			// the decoder of the library for values does not look behind a
			// value that is followed by a closing bracket
			for i, c := range src {
				if (c == ']' || c == '}') && lib.RefJSON(src[:i]) != nil {
					return
				}
			}
		}
		sym.Assert(diags.HasErrors() == !ok, "exactly JSON is accepted")
		if ok {
			sym.Assert(v.RawEquals(want), "the JSON value")
			sym.Assert(len(e.Variables()) == 0, "JSON refers to nothing")
			sym.Cover("json")
		}
		return
	}
	var w hcl.Expression
	var wd hcl.Diagnostics
	if typ == hclpack.ExprNative {
		w, wd = hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	} else {
		w, wd = hclsyntax.ParseTemplate(src, "t.hcl", lib.Start)
	}
	if wd.HasErrors() {
		sym.Assert(diags.HasErrors(), "a syntax error is reported")
		sym.Assert(len(e.Variables()) == 0, "no variables without an expression")
		return
	}
	wv, wd := w.Value(ctx)
	sym.Assert(len(diags) == len(wd), "the same diagnostics")
	sym.Assert(v.RawEquals(wv), "the same value")
	sym.Assert(len(e.Variables()) == len(w.Variables()), "the same variables")
	l1, d1 := hcl.ExprList(e)
	l2, d2 := hcl.ExprList(w)
	sym.Assert(len(l1) == len(l2) && d1.HasErrors() == d2.HasErrors(), "the same static list")
	sym.Cover("evaluated")
}
