package htrav

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// wrapped hides the implementation of an expression one level deep.
type wrapped struct{ hcl.Expression }

func (w wrapped) UnwrapExpression() hcl.Expression { return w.Expression }

// isName reports whether the text is one identifier.
func isName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || c != '-' && c != '_' && (c < '0' || c > '9')) {
			return false
		}
	}
	return s != ""
}

// list checks the decomposition as a list.
func list(e hcl.Expression, ctx *hcl.EvalContext, native bool) bool {
	parts, d := hcl.ExprList(e)
	if d.HasErrors() {
		return false
	}
	whole, wd := e.Value(ctx)
	bad := false
	vals := []cty.Value{}
	for _, p := range parts {
		v, pd := p.Value(ctx)
		bad = bad || pd.HasErrors()
		vals = append(vals, v)
	}
	sym.Assert(bad == wd.HasErrors(), "a static list fails exactly if an element fails")
	sym.Assert(bad || whole.RawEquals(cty.TupleVal(vals)), "the elements of a static list make up its value")
	sym.Cover("list")
	return true
}

// mapping checks the decomposition as a map.
func mapping(e hcl.Expression, ctx *hcl.EvalContext, native bool) bool {
	pairs, d := hcl.ExprMap(e)
	if d.HasErrors() {
		return false
	}
	whole, wd := e.Value(ctx)
	bad, unk := false, false
	m := map[string]cty.Value{}
	for _, p := range pairs {
		k, kd := p.Key.Value(ctx)
		v, vd := p.Value.Value(ctx)
		bad = bad || kd.HasErrors() || vd.HasErrors()
		if k.IsKnown() && k.IsNull() {
			bad = true
			continue
		}
		ks, err := convert.Convert(k, cty.String)
		if err != nil {
			bad = true
			continue
		}
		if !ks.IsKnown() {
			unk = true
			continue
		}
		if _, dup := m[ks.AsString()]; dup && !native {
			bad = true
		}
		m[ks.AsString()] = v
	}
	sym.Assert(bad == wd.HasErrors(), "a static map fails exactly if a key or value fails")
	if !bad && !unk {
		sym.Assert(whole.RawEquals(cty.ObjectVal(m)), "the items of a static map make up its value")
	}
	sym.Cover("map")
	return true
}

// call checks the decomposition as a function call, given the expression
// whose value the call has.
func call(e, valued hcl.Expression, ctx *hcl.EvalContext) bool {
	c, d := hcl.ExprCall(e)
	if d.HasErrors() {
		return false
	}
	whole, wd := valued.Value(ctx)
	f, ok := ctx.Functions[c.Name]
	if !ok {
		sym.Assert(wd.HasErrors(), "calling an undefined function fails")
		return true
	}
	bad := false
	var args []cty.Value
	for i, a := range c.Arguments {
		v, pd := a.Value(ctx)
		bad = bad || pd.HasErrors()
		ps := f.Params()
		ty := cty.DynamicPseudoType
		if i < len(ps) {
			ty = ps[i].Type
		} else if f.VarParam() != nil {
			ty = f.VarParam().Type
		} else {
			bad = true
		}
		cv, err := convert.Convert(v, ty)
		if err != nil {
			bad = true
		}
		args = append(args, cv)
	}
	var want cty.Value
	if !bad {
		v, err := f.Call(args)
		bad = err != nil
		want = v
	}
	sym.Assert(bad == wd.HasErrors(), "a static call fails exactly if an argument or the call fails")
	sym.Assert(bad || whole.RawEquals(want), "the arguments of a static call make up its value")
	sym.Cover("call")
	return true
}

func analyse(e hcl.Expression, ctx *hcl.EvalContext, native bool) {
	l := list(e, ctx, native)
	m := mapping(e, ctx, native)
	sym.Assert(!l || !m, "an expression is not both a list and a map")
	w := wrapped{wrapped{e}}
	_, d := hcl.ExprList(w)
	sym.Assert(l == !d.HasErrors(), "a wrapped list is recognised")
	_, d = hcl.ExprMap(w)
	sym.Assert(m == !d.HasErrors(), "a wrapped map is recognised")
	_, d = hcl.ExprCall(e)
	_, d2 := hcl.ExprCall(w)
	sym.Assert(d.HasErrors() == d2.HasErrors(), "a wrapped call is recognised")
	sym.Assert(hcl.ExprAsKeyword(e) == hcl.ExprAsKeyword(w), "a wrapped keyword is recognised")
	_, d = hcl.AbsTraversalForExpr(e)
	_, d2 = hcl.AbsTraversalForExpr(w)
	sym.Assert(d.HasErrors() == d2.HasErrors(), "a wrapped traversal is recognised")
	for _, x := range []hcl.Diagnostics{d} {
		for _, y := range x {
			sym.Assert(y.Subject != nil, "a problem has a subject")
		}
	}
}

var staticDocs = []string{"[a, 1, \"b\"]", "{a = 1, \"b\" = b, (a) = 2}", "f(a)", "g(1, a)", "foo", "g(l...)", "[[a], {b = f(b)}]", "{\n  a = 1\n  f(a) = 2\n}"}

func nativeSrc() []byte {
	if sym.Param("mut", 0) != 0 {
		return lib.Mutate(staticDocs, "ab1=\"{}[](),. *$\n")
	}
	return lib.ExprSrc(sym.Param("n", 2))
}

func trimmed(src []byte) string {
	for len(src) > 0 && (src[0] == ' ' || src[0] == '\n' || src[0] == '(') {
		src = src[1:]
	}
	for len(src) > 0 && (src[len(src)-1] == ' ' || src[len(src)-1] == '\n' || src[len(src)-1] == ')') {
		src = src[:len(src)-1]
	}
	return string(src)
}

// Native: static analysis of native expressions.
func Native() {
	src := nativeSrc()
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	if diags.HasErrors() {
		return
	}
	ctx := lib.Ctx()
	analyse(e, ctx, true)
	call(e, e, ctx)
	kw := hcl.ExprAsKeyword(e)
	comment := false
	for i := range src {
		comment = comment || src[i] == '#' || src[i] == '/' && i+1 < len(src) && (src[i+1] == '/' || src[i+1] == '*')
	}
	if name := trimmed(src); comment {
	} else if isName(name) {
		sym.Assert(kw == name, "a bare name is a keyword")
		sym.Cover("keyword")
	} else {
		sym.Assert(kw == "", "only a bare name is a keyword")
	}
	if l, d := hcl.ExprList(e); !d.HasErrors() {
		for _, p := range l {
			analyse(p, ctx, true)
			call(p, p, ctx)
		}
	}
	if m, d := hcl.ExprMap(e); !d.HasErrors() {
		for _, p := range m {
			analyse(p.Value, ctx, true)
			call(p.Value, p.Value, ctx)
		}
	}
}

// JSON: static analysis of JSON expressions.
func JSON() {
	doc := sym.Choice(10)
	c := string([]byte{sym.ByteIn("ab1.(),[]$ -")})
	c2 := string([]byte{sym.ByteIn("ab1.),]$ ")})
	k := string([]byte{sym.ByteIn("ab$1")})
	val := []string{
		"[\"" + c + "\", 1, \"${a}\"]",
		"{\"" + k + "\": \"x\", \"b\": \"${" + c + "}\"}",
		"\"f(" + c + ")\"",
		"\"a" + c + "\"",
		"\"g(a," + c + c2 + ")\"",
		"\"g(l..." + c + ")" + c2 + "\"",
		"\"a[0]" + c + c2 + "\"",
		"[]", "{}",
		"{\"a\": [\"" + c + "\"], \"${b}" + k + "\": {\"c\": null}}",
	}[doc]
	sym.ObserveStr("val", val)
	f, diags := json.Parse([]byte("{\"x\": "+val+"}"), "t.json")
	sym.Assert(!diags.HasErrors(), "a valid document is accepted")
	attrs, diags := f.Body.JustAttributes()
	sym.Assert(!diags.HasErrors() && len(attrs) == 1, "a property is an attribute")
	e := attrs["x"].Expr
	ctx := lib.Ctx()
	if sym.Choice(2) == 0 {
		analyse(e, nil, false)
	} else {
		analyse(e, ctx, false)
	}
	l, ld := hcl.ExprList(e)
	m, md := hcl.ExprMap(e)
	sym.Assert(!ld.HasErrors() == (val[0] == '['), "exactly a JSON array is a static list")
	sym.Assert(!md.HasErrors() == (val[0] == '{'), "exactly a JSON object is a static map")
	for _, p := range l {
		analyse(p, ctx, false)
	}
	for _, p := range m {
		analyse(p.Key, ctx, false)
		analyse(p.Value, ctx, false)
	}
	sc, cd := hcl.ExprCall(e)
	kw := hcl.ExprAsKeyword(e)
	t, td := hcl.AbsTraversalForExpr(e)
	if val[0] != '"' {
		sym.Assert(cd.HasErrors() && kw == "" && td.HasErrors(), "only a string is a call, keyword or traversal")
		return
	}
	text := val[1 : len(val)-1]
	ne, nd := hclsyntax.ParseExpression([]byte(text), "t.json", lib.Start)
	if nd.HasErrors() {
		sym.Assert(cd.HasErrors(), "a string that is no expression is not a call")
	} else {
		nc, ncd := hcl.ExprCall(ne)
		sym.Assert(ncd.HasErrors() == cd.HasErrors(), "a string is a call exactly if its text is")
		if !cd.HasErrors() {
			sym.Assert(sc.Name == nc.Name && len(sc.Arguments) == len(nc.Arguments), "the call is that of the text")
			call(e, ne, ctx)
		}
	}
	nt, ntd := hclsyntax.ParseTraversalAbs([]byte(text), "t.json", lib.Start)
	sym.Assert(ntd.HasErrors() == td.HasErrors() && (td.HasErrors() || len(t) == len(nt)), "a string is a traversal exactly if its text is")
	name := text
	if name[len(name)-1] == ' ' {
		name = name[:len(name)-1]
	}
	if isName(name) {
		sym.Assert(kw == name, "a bare name in a string is a keyword")
	} else {
		sym.Assert(kw == "", "only a bare name is a keyword")
	}
}
