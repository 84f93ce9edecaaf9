package heval

import (
	"errors"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

var errCall = errors.New("failed")

// Calls: a function gets the arguments written in the call.
func Calls() {
	types := []cty.Type{cty.String, cty.DynamicPseudoType, cty.Number, cty.List(cty.String)}
	param := func(name string) function.Parameter {
		return function.Parameter{Name: name, Type: types[sym.Choice(sym.Param("types", len(types)))], AllowNull: sym.Bool()}
	}
	spec := &function.Spec{}
	for i := sym.Choice(sym.Param("params", 2) + 1); i > 0; i-- {
		spec.Params = append(spec.Params, param("p"))
	}
	if sym.Bool() {
		p := param("v")
		spec.VarParam = &p
	}
	mode := sym.Choice(sym.Param("modes", 3))
	calls := 0
	var given []cty.Value
	spec.Type = func(args []cty.Value) (cty.Type, error) {
		tys := make([]cty.Type, len(args))
		for i, a := range args {
			tys[i] = a.Type()
		}
		return cty.Tuple(tys), nil
	}
	spec.Impl = func(args []cty.Value, ret cty.Type) (cty.Value, error) {
		calls++
		given = args
		switch {
		case mode == 1:
			return cty.NilVal, errCall
		case mode == 2 && len(args) > 0:
			return cty.NilVal, function.NewArgErrorf(len(args)-1, "failed")
		}
		return cty.TupleVal(args), nil
	}

	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{}, Functions: map[string]function.Function{"f": function.New(spec)}}
	src := []byte("f(")
	var args []cty.Value
	var starts []int
	failed := false
	var undef []int
	n := sym.Choice(sym.Param("args", 2) + 1)
	for i := 0; i < n; i++ {
		if i > 0 {
			src = append(src, ", "...)
		}
		name := string([]byte{byte('x' + i)})
		starts = append(starts, len(src))
		src = append(src, name...)
		k := sym.Choice(sym.Param("vals", len(callVals)))
		if callVals[k] < 0 {
			failed = true // an undefined variable
			undef = append(undef, len(src)-1)
			args = append(args, cty.DynamicVal)
			continue
		}
		ctx.Variables[name] = lib.Val(callVals[k])
		args = append(args, ctx.Variables[name])
	}
	expand := n > 0 && sym.Bool()
	if expand {
		src = append(src, "..."...)
	}
	src = append(src, ')')
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the call is valid")
	got, diags := e.Value(ctx)
	lib.DiagsOK(src, diags, "call")

	mustFail := func(what string) {
		sym.Assert(diags.HasErrors(), what+" is reported")
		sym.Assert(calls == 0, "a function is not called with wrong arguments")
		sym.Cover(what)
	}
	if failed && !expand {
		if len(args) >= len(spec.Params) && (spec.VarParam != nil || len(args) == len(spec.Params)) {
			for _, at := range undef {
				reported(diags, at)
			}
		}
		mustFail("an argument that fails")
		return
	}
	if expand {
		last := args[n-1]
		ty := last.Type()
		if ty == cty.DynamicPseudoType && !last.IsNull() {
			// the kind of value to expand is not known
			return
		}
		if !(ty.IsTupleType() || ty.IsListType() || ty.IsSetType()) || last.IsNull() {
			mustFail("a value that cannot be expanded")
			return
		}
		if !last.IsKnown() {
			sym.Assert(!got.IsKnown() && calls == 0, "unknown arguments give an unknown result")
			return
		}
		if failed {
			mustFail("an argument that fails")
			return
		}
		args = args[:n-1]
		for it := last.ElementIterator(); it.Next(); {
			_, v := it.Element()
			args = append(args, v)
			if len(starts) < len(args) {
				starts = append(starts, starts[n-1])
			}
		}
		sym.Cover("expanded")
	}
	if len(args) < len(spec.Params) || spec.VarParam == nil && len(args) > len(spec.Params) {
		mustFail("a wrong number of arguments")
		return
	}
	want := make([]cty.Value, len(args))
	wrong := false
	for i, a := range args {
		p := spec.VarParam
		if i < len(spec.Params) {
			p = &spec.Params[i]
		}
		v, err := convert.Convert(a, p.Type)
		if err != nil {
			wrong = true
			reported(diags, starts[i])
		}
		want[i] = v
	}
	if wrong {
		mustFail("an argument of a wrong type")
		return
	}
	known := true
	sym.ObserveStr("want", lib.Show(cty.TupleVal(want)))
	for i, v := range want {
		p := spec.VarParam
		if i < len(spec.Params) {
			p = &spec.Params[i]
		}
		if v.IsNull() && !p.AllowNull {
			mustFail("a null argument")
			return
		}
		if v.Type() == cty.DynamicPseudoType {
			// what the function does with it is not known
			sym.Assert(calls == 0 || v.IsNull(), "a function is not called with a value of unknown type")
			return
		}
		known = known && v.IsKnown()
	}
	if !known {
		sym.Assert(!diags.HasErrors(), "no error")
		sym.Assert(!got.IsKnown(), "unknown arguments give an unknown result")
		sym.Assert(calls == 0, "a function is not called with unknown arguments")
		sym.Assert(got.Type().Equals(cty.TupleVal(want).Type()), "the type of the unknown result")
		sym.Cover("unknown")
		return
	}
	sym.Assert(calls == 1, "the function is called once")
	sym.Assert(len(given) == len(want), "the function gets every argument")
	for i := range want {
		sym.Assert(given[i].RawEquals(want[i]), "each argument is converted to its parameter's type")
	}
	if mode == 0 || mode == 2 && len(want) == 0 {
		sym.Assert(!diags.HasErrors() && got.RawEquals(cty.TupleVal(want)), "the result of the function is returned")
		sym.Cover("result")
		return
	}
	sym.Assert(diags.HasErrors(), "a failure of the function is reported")
	if mode == 2 {
		sym.Assert(len(diags) == 1 && diags[0].Subject.Start.Byte == starts[len(want)-1], "an argument error is reported at the argument")
		sym.Cover("argument")
	}
}

// reported checks that some problem is at an argument.
func reported(diags hcl.Diagnostics, at int) {
	for _, d := range diags {
		if d.Subject != nil && d.Subject.Start.Byte == at {
			return
		}
	}
	sym.Fail("each unusable argument is reported")
}

var callVals = []int{0, 20, 3, 1, 6, 17, 13, 14, 4, 9, 15, 5, 24, 22, -1}

// Scopes: functions and variables are found in the innermost scope with
// their name.
func Scopes() {
	result := func(n int64) function.Function {
		return function.New(&function.Spec{
			Type: function.StaticReturnType(cty.Number),
			Impl: func([]cty.Value, cty.Type) (cty.Value, error) { return cty.NumberIntVal(n), nil },
		})
	}
	var ctx *hcl.EvalContext
	fn, vr := int64(-1), int64(-1)
	name := string([]byte{sym.ByteIn("fg")})
	for i := int64(0); i < int64(sym.Param("scopes", 3)); i++ {
		if ctx == nil {
			ctx = &hcl.EvalContext{}
		} else {
			ctx = ctx.NewChild()
		}
		switch sym.Choice(4) {
		case 1:
			ctx.Functions = map[string]function.Function{}
		case 2:
			ctx.Functions = map[string]function.Function{name: result(i)}
			fn = i
		case 3:
			ctx.Functions = map[string]function.Function{"other": result(i)}
		}
		switch sym.Choice(4) {
		case 1:
			ctx.Variables = map[string]cty.Value{}
		case 2:
			ctx.Variables = map[string]cty.Value{name: cty.NumberIntVal(i)}
			vr = i
		case 3:
			ctx.Variables = map[string]cty.Value{"other": cty.NumberIntVal(i)}
		}
	}
	check := func(src string, want int64) {
		e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", lib.Start)
		sym.Assert(!diags.HasErrors(), "the expression is valid")
		v, diags := e.Value(ctx)
		if want < 0 {
			sym.Assert(diags.HasErrors(), "a name that no scope has is reported")
			return
		}
		sym.Assert(!diags.HasErrors() && v.RawEquals(cty.NumberIntVal(want)), "the innermost scope with the name is used")
		sym.Cover("found")
	}
	check(name+"()", fn)
	check(name, vr)
	check("[for other in ["+name+"] : other][0]", vr)
}
