// Package htrav holds the harnesses about traversals, the operator helpers and
// static analysis of expressions.
package htrav

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

func str(s string) cty.Value { return cty.StringVal(s) }

func obj(m map[string]cty.Value) cty.Value { return cty.ObjectVal(m) }

// variable returns a value with some depth.
func variable() cty.Value {
	switch sym.Choice(10) {
	case 0:
		return obj(map[string]cty.Value{"a": lib.StrC("xy"), "b": obj(map[string]cty.Value{"c": lib.StrC("pq"), "b": str("u")})})
	case 1:
		return cty.TupleVal([]cty.Value{obj(map[string]cty.Value{"b": lib.StrC("xy")}), lib.StrC("pq")})
	case 2:
		return cty.MapVal(map[string]cty.Value{"a": lib.StrC("xy"), "b": str("z"), "1": str("w")})
	case 3:
		return cty.ListVal([]cty.Value{lib.StrC("xy"), lib.StrC("pq")})
	case 4:
		return cty.MapVal(map[string]cty.Value{"b": cty.MapVal(map[string]cty.Value{"c": str("q"), "b": lib.StrC("xy")})})
	case 5:
		return cty.NullVal(cty.DynamicPseudoType)
	case 6:
		return cty.DynamicVal
	case 7:
		return cty.UnknownVal(cty.Object(map[string]cty.Type{"a": cty.String, "b": cty.List(cty.String)}))
	case 8:
		return cty.ObjectVal(map[string]cty.Value{"b": cty.NullVal(cty.String), "a": cty.UnknownVal(cty.Map(cty.Number)), "": str("e")})
	}
	return lib.StrC("ab")
}

// scopes returns a scope in which the names a and b may be defined at two
// levels, the inner one hiding the outer one, and the values they have.
func scopes() (*hcl.EvalContext, map[string]cty.Value) {
	v := variable()
	ctx := &hcl.EvalContext{}
	all := map[string]cty.Value{}
	switch sym.Choice(5) {
	case 0:
		ctx.Variables = map[string]cty.Value{"a": v}
		all["a"] = v
	case 1:
		ctx.Variables = map[string]cty.Value{"a": str("outer"), "b": v}
		ctx = ctx.NewChild()
		ctx.Variables = map[string]cty.Value{"a": v}
		all["a"], all["b"] = v, v
	case 2:
		ctx.Variables = map[string]cty.Value{"a": v}
		all["a"] = v
		ctx = ctx.NewChild().NewChild()
	case 3:
		ctx.Variables = map[string]cty.Value{"a": v}
		all["a"] = v
		ctx = ctx.NewChild()
		ctx.Variables = map[string]cty.Value{"b": str("inner")}
		all["b"] = str("inner")
	case 4:
	}
	return ctx, all
}

func same(v1 cty.Value, d1 hcl.Diagnostics, v2 cty.Value, d2 hcl.Diagnostics) bool {
	if d1.HasErrors() != d2.HasErrors() {
		return false
	}
	return d1.HasErrors() || v1.RawEquals(v2)
}

// walk applies a traversal step by step to the variables in all.
func walk(t hcl.Traversal, all map[string]cty.Value) (cty.Value, bool) {
	cur, ok := all[t[0].(hcl.TraverseRoot).Name]
	if !ok {
		return cty.DynamicVal, false
	}
	for _, step := range t[1:] {
		switch s := step.(type) {
		case hcl.TraverseAttr:
			cur, ok = refAttr(cur, s.Name)
		case hcl.TraverseIndex:
			cur, ok = refIndex(cur, s.Key)
		default:
			return cty.DynamicVal, false
		}
		if !ok {
			return cty.DynamicVal, false
		}
	}
	return cur, true
}

func compare(t hcl.Traversal, e hcl.Expression) {
	ctx, all := scopes()
	sym.ObserveInt("vars", len(all))
	if v, ok := all["a"]; ok {
		sym.ObserveStr("a", lib.Show(v))
	}
	tv, td := t.TraverseAbs(ctx)
	sym.ObserveStr("val", lib.Show(tv))
	ev, ed := e.Value(ctx)
	sym.Assert(same(tv, td, ev, ed), "a traversal has the value of the same expression")
	wv, ok := walk(t, all)
	sym.Assert(ok == !td.HasErrors() && (!ok || wv.RawEquals(tv)), "a traversal selects step by step from its root variable")
	sp := t.SimpleSplit()
	sv, sd := sp.Traverse(ctx)
	sym.Assert(same(tv, td, sv, sd), "a split traversal has the same value")
	j := sp.Join()
	sym.Assert(sameSteps(j, t), "splitting and joining gives the traversal back")
	if len(t) > 1 {
		orig := append(hcl.Traversal(nil), t...)
		k := hcl.TraversalJoin(sp.Abs, hcl.Traversal{hcl.TraverseAttr{Name: "zz"}})
		sym.Assert(len(k) == 2 && sameSteps(k[:1], orig[:1]) && sameSteps(t, orig) && sameSteps(j, orig), "joining leaves other traversals alone")
	}
	rng := t.SourceRange()
	sym.Assert(rng.Start == t[0].SourceRange().Start && rng.End == t[len(t)-1].SourceRange().End, "a traversal reaches from its first step to its last")
	jv, jd := j.TraverseAbs(ctx)
	sym.Assert(same(tv, td, jv, jd), "a rejoined traversal has the same value")
	sym.Assert(t.RootName() == sp.RootName() && !t.IsRelative() && sp.Rel.IsRelative(), "splitting separates the root")
	if len(all) > 0 {
		rel, rd := hcl.RelTraversalForExpr(e)
		sym.Assert(!rd.HasErrors() && len(rel) == len(t) && rel.IsRelative(), "the relative form exists")
		rv, rvd := rel.TraverseRel(cty.ObjectVal(all))
		sym.Assert(same(tv, td, rv, rvd), "the relative form selects the same from an object of all variables")
		t2, d2 := hcl.AbsTraversalForExpr(e)
		sym.Assert(!d2.HasErrors() && sameSteps(t2, t), "making the relative form does not change the expression")
	}
}

func sameSteps(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].SourceRange() != b[i].SourceRange() {
			return false
		}
		switch x := a[i].(type) {
		case hcl.TraverseRoot:
			y, ok := b[i].(hcl.TraverseRoot)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseAttr:
			y, ok := b[i].(hcl.TraverseAttr)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseIndex:
			y, ok := b[i].(hcl.TraverseIndex)
			if !ok || !x.Key.RawEquals(y.Key) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// Text: every traversal text the static parser accepts.
func Text() {
	src := lib.TravSrc(sym.Param("n", 2))
	sym.ObserveBytes("src", src)
	t, diags := hclsyntax.ParseTraversalAbs(src, "t.hcl", lib.Start)
	if diags.HasErrors() {
		return
	}
	e, ed := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	for _, c := range src {
		// line breaks are ignored in a traversal but may end an expression
		if c == '\n' && ed.HasErrors() {
			return
		}
	}
	sym.Cover("accepted")
	sym.Assert(!ed.HasErrors(), "an accepted traversal is a valid expression")
	t2, td := hcl.AbsTraversalForExpr(e)
	for _, c := range src {
		// a dollar sign divides the key into several literals, so that the
		// expression is not recognised as a static traversal
		if c == '$' && td.HasErrors() {
			ctx, _ := scopes()
			tv, td := t.TraverseAbs(ctx)
			ev, ed := e.Value(ctx)
			sym.Assert(same(tv, td, ev, ed), "a traversal has the value of the same expression")
			return
		}
	}
	sym.Assert(!td.HasErrors(), "the expression is a static traversal")
	sym.Assert(sameSteps(t, t2), "both parsers give the same traversal")
	compare(t, e)
}

// Expr: every expression that can be taken as a static traversal.
func Expr() {
	var src []byte
	if sym.Param("mut", 0) != 0 {
		src = lib.Mutate(travDocs, "ab0.[]\"*( \\$-")
	} else {
		src = lib.ExprSrc(sym.Param("n", 2))
	}
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	if diags.HasErrors() {
		return
	}
	t, td := hcl.AbsTraversalForExpr(e)
	if td.HasErrors() {
		sym.Cover("dynamic")
		return
	}
	sym.Cover("static")
	if _, ok := e.(*hclsyntax.LiteralValueExpr); ok {
		return
	}
	compare(t, e)
}

var travDocs = []string{"a.b.c", "a[\"b\"].c", "a[0].b", "a.0.b", "a.b[\"c\"][1]", "(a).b", "a.b.0.1"}

// Steps: traversals written out from symbolic steps.
func Steps() {
	n := sym.Param("n", 2)
	src := []byte{sym.ByteIn("ab")}
	type step struct {
		kind int
		s    string
		i    int
	}
	var steps []step
	for k := 0; k < n; k++ {
		var st step
		st.kind = sym.Choice(4)
		if k > 0 && st.kind == 3 && steps[k-1].kind == 3 {
			return // 0.1 is one number token
		}
		switch st.kind {
		case 0:
			st.s = string([]byte{sym.ByteIn("abc")})
			src = append(append(src, '.'), st.s...)
		case 1:
			st.s = string([]byte{sym.ByteIn("abc1 .]*")})
			src = append(append(append(src, "[\""...), st.s...), "\"]"...)
		case 2:
			st.i = sym.Concrete(sym.IntRange(0, 2))
			src = append(src, '[', '0'+byte(st.i), ']')
		case 3:
			st.i = sym.Concrete(sym.IntRange(0, 2))
			src = append(src, '.', '0'+byte(st.i))
		}
		steps = append(steps, st)
	}
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a traversal is a valid expression")
	t, td := hcl.AbsTraversalForExpr(e)
	sym.Assert(!td.HasErrors(), "the expression is a static traversal")
	sym.Assert(len(t) == n+1, "each step is kept")
	for k, st := range steps {
		switch s := t[k+1].(type) {
		case hcl.TraverseAttr:
			sym.Assert(st.kind == 0 && s.Name == st.s, "an attribute step names the attribute")
		case hcl.TraverseIndex:
			want := cty.NumberIntVal(int64(st.i))
			if st.kind == 1 {
				want = str(st.s)
			}
			sym.Assert(st.kind != 0 && s.Key.RawEquals(want), "an index step holds the key")
		default:
			sym.Fail("a step is an attribute or an index")
		}
	}
	compare(t, e)
	vars := e.Variables()
	sym.Assert(len(vars) == 1 && sameSteps(vars[0], t), "the variable reported is the traversal")
}
