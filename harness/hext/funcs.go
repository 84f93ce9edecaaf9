package hext

import (
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// substitute evaluates a result expression with the arguments bound.
func substitute(result string, params []string, rest string, args []cty.Value, base *hcl.EvalContext) (cty.Value, bool) {
	e, diags := hclsyntax.ParseExpression([]byte(result), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the result expression is valid alone")
	ctx := base.NewChild()
	ctx.Variables = map[string]cty.Value{}
	for i, p := range params {
		ctx.Variables[p] = args[i]
	}
	if rest != "" {
		ctx.Variables[rest] = cty.TupleVal(append([]cty.Value{}, args[len(params):]...))
	}
	v, diags := e.Value(ctx)
	return v, !diags.HasErrors()
}

func unknownArg(v cty.Value) bool { return !v.IsKnown() }

// Calls: calls of a declared function with any arguments, repeated.
func Calls() {
	np := sym.Choice(3)
	params := []string{"a", "b"}[:np]
	rest := ""
	if sym.Choice(2) == 1 {
		rest = "c"
	}
	result := string(lib.Mutate(resultDocs[sym.Choice(len(resultDocs)):][:1], "abci"))
	src := "function \"h\" {\n params = ["
	for i, p := range params {
		if i > 0 {
			src += ", "
		}
		src += p
	}
	src += "]\n"
	if rest != "" {
		src += " variadic_param = c\n"
	}
	src += " result = " + result + "\n}\nx = 1\n"
	sym.ObserveStr("src", src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", lib.Start)
	sym.Assume(!diags.HasErrors())
	var base *hcl.EvalContext
	var ctxFunc userfunc.ContextFunc
	switch sym.Choice(3) {
	case 1:
		ctxFunc = func() *hcl.EvalContext { return nil }
	case 2:
		base = lib.Ctx()
		ctxFunc = func() *hcl.EvalContext { return base }
	}
	funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, "function", ctxFunc)
	sym.Assert(!diags.HasErrors() && len(funcs) == 1, "a valid declaration is accepted")
	as, diags := remain.JustAttributes()
	sym.Assert(!diags.HasErrors() && len(as) == 1 && as["x"] != nil, "the rest of the body remains")
	h, ok := funcs["h"]
	sym.Assert(ok, "a function of the declared name")
	if !ok {
		return
	}
	na := sym.Choice(sym.Param("args", 3) + 1)
	var args []cty.Value
	for i := 0; i < na; i++ {
		args = append(args, lib.Val([]int{0, 6, 20, 13, 4, 1, 14, 22, 24}[sym.Choice(sym.Param("vals", 9))]))
	}
	sym.Freeze(args)
	v, err := h.Call(args)
	if base != nil {
		fresh := lib.Ctx().Variables
		sym.Assert(len(base.Variables) == len(fresh) && base.Variables["a"].RawEquals(fresh["a"]) && base.Variables["b"].RawEquals(fresh["b"]), "the scope of the caller is left alone")
	}
	if na < np || na > np && rest == "" {
		sym.Assert(err != nil, "a wrong number of arguments is an error")
		sym.Cover("wrong number")
		return
	}
	null, unknown := false, false
	for _, a := range args {
		null = null || a.IsNull()
		unknown = unknown || unknownArg(a)
	}
	switch {
	case null && !unknown:
		sym.Assert(err != nil, "a null argument is an error")
		return
	case null:
		return
	}
	want, ok := substitute(result, params, rest, args, base)
	if unknown {
		sym.Assert(err != nil || lib.StandsFor(v, want), "the result with an unknown argument is possible")
		sym.Assert(err == nil || !ok, "an unknown argument causes no error of its own")
		return
	}
	sym.Assert((err == nil) == ok, "a call fails exactly if the result expression does")
	if err != nil || !ok {
		return
	}
	sym.Cover("result")
	sym.Assert(v.RawEquals(want), "the result is the expression with the arguments")
	sym.ObserveStr("value", lib.Show(v))
	// other calls in between have no effect
	other := make([]cty.Value, len(args))
	for i := range other {
		other[i] = cty.StringVal("other")
	}
	h.Call(other)
	h.Call(nil)
	again, err := h.Call(args)
	sym.Assert(err == nil && again.RawEquals(v), "the same call gives the same result")
	ty, err := h.ReturnTypeForValues(args)
	sym.Assert(err == nil && ty.Equals(v.Type()), "the result type is the type of the result")
}

var resultDocs = []string{
	"a",
	"[a, b]",
	"c",
	"c[0]",
	"\"${a}b\"",
	"{k = b}",
	"[for v in c : v]",
	"i",
	"a == b",
	"f(a)",
}

// Several: functions declared together do not see each other's parameters.
func Several() {
	names := func() string { return string([]byte{sym.ByteIn("abx")}) }
	p1, p2, r1, r2 := names(), names(), names(), names()
	src := "h \"f\" {\n  params = [" + p1 + "]\n  result = [" + r1 + "]\n}\nh \"g\" {\n  params = []\n  variadic_param = " + p2 + "\n  result = [" + r2 + "]\n}\n"
	sym.ObserveStr("src", src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the declarations are valid")
	var ctxFunc userfunc.ContextFunc
	calls := 0
	x := lib.StrC("pq")
	if sym.Bool() {
		ctxFunc = func() *hcl.EvalContext {
			calls++
			return &hcl.EvalContext{Variables: map[string]cty.Value{"x": x}}
		}
	}
	funcs, _, diags := userfunc.DecodeUserFunctions(f.Body, "h", ctxFunc)
	sym.Assert(!diags.HasErrors() && len(funcs) == 2, "two functions")
	arg := lib.StrC("rs")
	for i := sym.Param("calls", 3); i > 0; i-- {
		fn, p, r := funcs["f"], p1, r1
		bound := arg
		if sym.Bool() {
			fn, p, r = funcs["g"], p2, r2
			bound = cty.TupleVal([]cty.Value{arg})
		}
		v, err := fn.Call([]cty.Value{arg})
		switch {
		case p == r:
			sym.Assert(err == nil && v.RawEquals(cty.TupleVal([]cty.Value{bound})), "a parameter is its argument")
			sym.Cover("bound")
		case r == "x" && ctxFunc != nil:
			sym.Assert(err == nil && v.RawEquals(cty.TupleVal([]cty.Value{x})), "other names come from the scope of the declarations")
			sym.Cover("scope")
		default:
			sym.Assert(err != nil, "a name that is not a parameter is an error")
			sym.Cover("undefined")
		}
	}
	sym.Assert(calls <= 1, "one scope for all the functions")
}

// Decls: any declarations, called with any number of arguments.
func Decls() {
	src := lib.Mutate(declDocs, "abh={}[]\",. \n1c")
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assume(!diags.HasErrors())
	sym.Cover("configuration")
	valid, names := true, []string{}
	for _, bl := range f.Body.(*hclsyntax.Body).Blocks {
		if bl.Type != "h" {
			continue
		}
		ok := len(bl.Labels) == 1 && len(bl.Body.Blocks) == 0
		for n := range bl.Body.Attributes {
			ok = ok && (n == "params" || n == "variadic_param" || n == "result")
		}
		ok = ok && bl.Body.Attributes["params"] != nil && bl.Body.Attributes["result"] != nil
		if ok {
			l, isList := bl.Body.Attributes["params"].Expr.(*hclsyntax.TupleConsExpr)
			ok = isList
			if isList {
				for _, e := range l.Exprs {
					ok = ok && hcl.ExprAsKeyword(e) != ""
				}
			}
			if v := bl.Body.Attributes["variadic_param"]; v != nil {
				ok = ok && hcl.ExprAsKeyword(v.Expr) != ""
			}
		}
		valid = valid && ok
		if ok {
			names = append(names, bl.Labels[0])
		}
	}
	funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, "h", nil)
	sym.Assert(diags.HasErrors() == !valid, "exactly invalid declarations are reported")
	lib.DiagsOK(src, diags, "declaration")
	if diags.HasErrors() {
		return
	}
	sym.Cover("valid")
	sym.Assert(remain != nil, "a remaining body")
	for _, n := range names {
		fn, ok := funcs[n]
		sym.Assert(ok, "every declared function is there")
		if !ok {
			continue
		}
		var args []cty.Value
		for i := 0; i < 4; i++ {
			v, err := fn.Call(args)
			sym.Assert((v == cty.NilVal) == (err != nil), "a call gives a value or an error")
			args = append(args, cty.StringVal("v"))
		}
	}
}

var declDocs = []string{
	"h \"a\" {\n  params = [a, b]\n  result = a\n}\n",
	"h \"a\" {\n  params = []\n  variadic_param = c\n  result = c[0]\n}\n",
	"h \"a\" {\n  params = [a]\n  result = b(a)\n}\nh b {\n  params = []\n  result = 1\n}\nc = 1\n",
}
