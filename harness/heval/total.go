// Package heval holds the harnesses about expression evaluation.
package heval

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// The forms: X and Y stand for operands. The second part is the type of the
// result where the operation fixes it: s, n, b, t (tuple), o (object), q (sequence).
var forms = [][2]string{
	{"-X", "n"}, {"!X", "b"}, {"X + Y", "n"}, {"X % Y", "n"}, {"X / Y", "n"}, {"X == Y", "b"}, {"X != Y", "b"}, {"X < Y", "b"}, {"X && Y", "b"}, {"X || Y", "b"},
	{"X ? Y : 1", ""}, {"true ? X : Y", ""}, {"X ? \"a\" : Y", ""}, {"X ? null : Y", ""}, {"false ? X : Y", ""},
	{"X[Y]", ""}, {"X[0]", ""}, {"X[\"a\"]", ""}, {"X.a", ""}, {"X.0", ""}, {"X.a.b", ""},
	{"X.*", ""}, {"X.*.a", ""}, {"X[*]", ""}, {"X[*].a", ""}, {"X[*][0]", ""}, {"(X.*.a)[*]", ""}, {"X[*].a[Y]", ""}, {"X.*[0].a", ""},
	{"[for v in X: v]", "t"}, {"[for k, v in X: k]", "t"}, {"[for v in X: v if Y]", "t"}, {"[for v in X: v.a]", "t"}, {"[for k, v in X: v if k == Y]", "t"}, {"[for v in X: 1 if v]", "t"},
	{"{for k, v in X: k => v}", "o"}, {"{for v in X: v => Y}", "o"}, {"{for k, v in X: v => k...}", "o"}, {"{for k, v in X: k => v if v == Y}", "o"}, {"{for k, v in X: Y => v...}", "o"},
	{"[X, Y]", "t"}, {"{a = X, (Y) = 1}", "o"}, {"{(X) = Y, b = 2}", "o"}, {"{\"${X}\" = Y}", "o"},
	{"\"${X}\"", ""}, {"\"a${X}\"", "s"}, {"\"${X}${Y}\"", "s"}, {"\"%{if X}a%{else}${Y}%{endif}\"", "s"}, {"\"%{if X}${Y}%{endif}\"", "s"}, {"\"%{for v in X}${v}%{endfor}\"", "s"}, {"\"%{for k, v in X}${k}${Y}%{endfor}z\"", "s"}, {"<<A\n${X}\nA\n", "s"},
	{"f(X)", "s"}, {"g(X)", "n"}, {"g(X...)", "n"}, {"g(X, Y...)", "n"}, {"f(X...)", "s"}, {"h(X, Y)", ""}, {"h(X...)", ""},
	{"g(\"\", X)", "n"}, {"f(X, \"\")", "s"}, {"X + \"\"", "n"}, {"\"\"[X]", ""}, {"X == \"\" ? \"\" : Y", ""},
	{"(X)", ""}, {"X", ""},
}

func subst(s, x, y string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'X':
			out = append(out, x...)
		case 'Y':
			out = append(out, y...)
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

func parse(src string) hclsyntax.Expression {
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a well-formed expression is accepted")
	return e
}

// scope has the two operands and the functions f, g and h; a function may be
// handed unknown, null and dynamic arguments.
func scope(x, y cty.Value) *hcl.EvalContext {
	fs := lib.Funcs()
	fs["h"] = anyFunc
	return &hcl.EvalContext{Variables: map[string]cty.Value{"x": x, "y": y}, Functions: fs}
}

func typeOK(ty cty.Type, kind string) bool {
	if ty == cty.DynamicPseudoType {
		return true
	}
	switch kind {
	case "s":
		return ty == cty.String
	case "n":
		return ty == cty.Number
	case "b":
		return ty == cty.Bool
	case "t":
		return ty.IsTupleType()
	case "o":
		return ty.IsObjectType()
	}
	return true
}

// unknown result with no dynamic part allowed only when something was not known
func evaluate(e hclsyntax.Expression, ctx *hcl.EvalContext, kind string) {
	v, diags := e.Value(ctx)
	sym.ObserveBool("errs", diags.HasErrors())
	sym.Assert(lib.Well(v), "evaluation returns a well-formed value")
	sym.ObserveStr("val", lib.Show(v))
	for _, d := range diags {
		sym.Assert(d.Summary != "" && d.Subject != nil, "diagnostics have a summary and a subject")
		sym.Assert(d.Severity == hcl.DiagError || d.Severity == hcl.DiagWarning, "diagnostics have a severity")
	}
	if diags.HasErrors() {
		sym.Cover("error")
		return
	}
	sym.Cover("value")
	sym.Assert(typeOK(v.Type(), kind), "the result has the type of the operation")
}

// Total1: every form applied to every pair of kinds of values.
func Total1() {
	f := forms[sym.Choice(len(forms))]
	two := false
	for i := 0; i < len(f[0]); i++ {
		two = two || f[0][i] == 'Y'
	}
	x := lib.AnyVal()
	y := cty.True
	if two {
		y = lib.AnyVal()
	}
	src := subst(f[0], "x", "y")
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	sym.ObserveStr("y", lib.Show(y))
	evaluate(parse(src), scope(x, y), f[1])
}

// Total2: every form applied to the results of every form.
func Total2() {
	f := forms[sym.Choice(len(forms))]
	g := forms[sym.Choice(len(forms))]
	var x cty.Value
	if sym.Param("few", 0) != 0 {
		x = lib.FewVals()
	} else {
		x = lib.AnyVal()
	}
	if sym.Param("pos", 0) == 0 {
		g[0] = subst(f[0], "("+subst(g[0], "x", "true")+")", "x")
	} else {
		g[0] = subst(f[0], "x", "("+subst(g[0], "x", "0")+")")
	}
	src := g[0]
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	evaluate(parse(src), scope(x, cty.True), f[1])
}
