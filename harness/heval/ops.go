package heval

import (
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// operand converts to the type an operator works on.
func operand(v cty.Value, ty cty.Type) (cty.Value, bool) {
	c, err := convert.Convert(v, ty)
	if err != nil || c.IsNull() {
		return cty.NilVal, false
	}
	return c, true
}

func small(v cty.Value) int {
	n, _ := v.AsBigFloat().Int64()
	return int(n)
}

// wholly reports whether a value can be compared.
func wholly(v cty.Value) bool { return v.IsWhollyKnown() && !v.Type().HasDynamicTypes() }

// Ops: operators over all kinds of operand.
func Ops() {
	ops := []string{"+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "neg", "not"}
	k := sym.Choice(len(ops))
	op := ops[k]
	pick := func() cty.Value {
		if sym.Param("all", 0) != 0 {
			return lib.AnyVal()
		}
		return lib.Val(opVals[sym.Choice(len(opVals))])
	}
	x := pick()
	y := cty.NilVal
	var src string
	switch op {
	case "neg":
		src = "-x"
	case "not":
		src = "!x"
	default:
		y = pick()
		src = "x " + op + " y"
	}
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	got, diags := eval(src, map[string]cty.Value{"x": x, "y": y})
	bad := diags.HasErrors()
	if op == "==" || op == "!=" {
		sym.Assert(!bad, "any values can be compared")
		sym.Assert(got.Type() == cty.Bool, "a comparison gives a truth value")
		eq := false
		switch {
		case x.IsKnown() && x.IsNull() && y.IsKnown() && y.IsNull():
			eq = true
		case x.IsKnown() && x.IsNull() && y.IsKnown() || y.IsKnown() && y.IsNull() && x.IsKnown():
		case !wholly(x) || !wholly(y):
			// nothing is prescribed but that the result is not wrong (see E02)
			return
		case x.Type().Equals(y.Type()):
			eq = x.RawEquals(y)
		}
		sym.Assert(got.RawEquals(cty.BoolVal(eq == (op == "=="))), "values are equal if they have the same type and content")
		sym.Cover("equality")
		return
	}
	arg, res := cty.Number, cty.Number
	switch {
	case k >= 5 && k <= 8:
		res = cty.Bool
	case op == "&&" || op == "||" || op == "not":
		arg, res = cty.Bool, cty.Bool
	}
	a, ok := operand(x, arg)
	b := a
	if y != cty.NilVal {
		var okb bool
		b, okb = operand(y, arg)
		ok = ok && okb
	}
	sym.Assert(bad == !ok || op == "/" && bad, "exactly unusable operands are reported")
	sym.Assert(got.Type() == res || got == cty.DynamicVal, "the result has the type of the operator")
	if bad {
		sym.Cover("reported")
		return
	}
	if !a.IsKnown() || !b.IsKnown() {
		sym.Assert(!got.IsKnown(), "unknown operands give an unknown result")
		sym.Cover("unknown")
		return
	}
	sym.Cover("computed")
	if arg == cty.Bool {
		p, q := a.True(), b.True()
		want := !p
		switch op {
		case "&&":
			want = p && q
		case "||":
			want = p || q
		}
		sym.Assert(got.RawEquals(cty.BoolVal(want)), "the result of a logical operator")
		return
	}
	p, q := small(a), small(b)
	num := func(n int) {
		sym.Assert(got.RawEquals(cty.NumberIntVal(int64(n))), "the result of an arithmetic operator")
	}
	truth := func(c bool) {
		sym.Assert(got.RawEquals(cty.BoolVal(c)), "the result of a comparison")
	}
	switch op {
	case "+":
		num(p + q)
	case "-":
		num(p - q)
	case "*":
		num(p * q)
	case "neg":
		num(-p)
	case "/":
		if q != 0 {
			sym.Assert(got.Multiply(b).RawEquals(a), "a quotient times the divisor is the dividend")
		}
	case "%":
		if q != 0 {
			num(p % q)
		}
	case "<":
		truth(p < q)
	case "<=":
		truth(p <= q)
	case ">":
		truth(p > q)
	case ">=":
		truth(p >= q)
	}
}

var opVals = []int{0, 1, 2, 3, 6, 7, 8, 13, 14, 20, 22, 30, 24}

// Cons: objects and tuples with any keys and values.
func Cons() {
	n := sym.Choice(sym.Param("n", 2) + 1)
	vars := map[string]cty.Value{}
	want := map[string]cty.Value{}
	var seq []cty.Value
	fail, unknown := false, false
	src := []byte("{")
	eq := []string{" = ", " : ", "="}[sym.Choice(3)]
	sep := []string{", ", "\n", ",\n"}[sym.Choice(3)]
	for i := 0; i < n; i++ {
		if i > 0 {
			src = append(src, sep...)
		}
		key := ""
		switch sym.Choice(5) {
		case 0:
			key = string([]byte{sym.ByteIn("abx")})
			src = append(src, key...)
		case 1:
			key = string([]byte{sym.ByteIn("a x")})
			src = append(src, "\""+key+"\""...)
		case 2:
			key = string([]byte{sym.ByteIn("12")})
			src = append(src, key...)
		case 3:
			c := string([]byte{sym.ByteIn("ab")})
			key = "x" + c
			src = append(src, "\"x${\""+c+"\"}\""...)
		case 4:
			name := string([]byte{'k', byte('0' + i)})
			src = append(src, "("+name+")"...)
			k := lib.Val(consKeys[sym.Choice(len(consKeys))])
			vars[name] = k
			c, ok := operand(k, cty.String)
			switch {
			case !ok:
				fail = true
			case !c.IsKnown():
				unknown = true
			default:
				key = c.AsString()
			}
		}
		name := string([]byte{'v', byte('0' + i)})
		v := lib.StrC("pq")
		if sym.Bool() {
			v = cty.NullVal(cty.String)
		}
		vars[name] = v
		src = append(src, eq+name...)
		want[key] = v
		seq = append(seq, v)
	}
	src = append(src, '}')
	sym.ObserveBytes("src", src)
	vars["x"] = cty.StringVal("wrong")
	got, diags := eval(string(src), vars)
	sym.Assert(diags.HasErrors() == fail, "exactly unusable keys are reported")
	switch {
	case fail:
		sym.Cover("reported")
	case unknown:
		sym.Assert(got.RawEquals(cty.DynamicVal), "an object with an unknown key is unknown")
		sym.Cover("unknown")
	default:
		sym.Assert(got.RawEquals(cty.ObjectVal(want)), "an object has exactly the keys and values written, the last of equal keys")
		sym.Cover("object")
	}
	text := "["
	for i := range seq {
		if i > 0 {
			text += ", "
		}
		text += string([]byte{'v', byte('0' + i)})
	}
	got, diags = eval(text+"]", vars)
	sym.Assert(!diags.HasErrors() && got.RawEquals(cty.TupleVal(seq)), "a tuple has exactly the values written")
}

var consKeys = []int{0, 1, 2, 4, 3, 6, 13, 14, 20}
