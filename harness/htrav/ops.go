package htrav

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// asIndex returns the whole number a key stands for.
func asIndex(key cty.Value) (i int, known, ok bool) {
	switch key.Type() {
	case cty.Number:
		if !key.IsKnown() {
			return 0, false, true
		}
		f, _ := key.AsBigFloat().Float64()
		if f < 0 || f > 100 || f != float64(int(f)) {
			return 0, true, false
		}
		return int(f), true, true
	case cty.String:
		if !key.IsKnown() {
			return 0, false, true
		}
		s := key.AsString()
		if len(s) != 1 || s[0] < '0' || s[0] > '9' {
			return 0, true, false
		}
		return int(s[0] - '0'), true, true
	}
	return 0, true, false
}

// asName returns the text a key stands for.
func asName(key cty.Value) (s string, known, ok bool) {
	switch key.Type() {
	case cty.String:
		if !key.IsKnown() {
			return "", false, true
		}
		return key.AsString(), true, true
	case cty.Number:
		if !key.IsKnown() {
			return "", false, true
		}
		f, _ := key.AsBigFloat().Float64()
		n := int(f)
		if f == float64(n) && n >= 0 && n < 10 {
			return string([]byte{'0' + byte(n)}), true, true
		}
		if f == -1 {
			return "-1", true, true
		}
		return "another number", true, true
	case cty.Bool:
		if !key.IsKnown() {
			return "", false, true
		}
		if key.True() {
			return "true", true, true
		}
		return "false", true, true
	}
	return "", true, false
}

// refIndex is the index operator as the language defines it.
func refIndex(c, key cty.Value) (cty.Value, bool) {
	if c.IsNull() || key.IsNull() {
		return cty.DynamicVal, false
	}
	ty, kty := c.Type(), key.Type()
	if ty == cty.DynamicPseudoType || kty == cty.DynamicPseudoType {
		return cty.DynamicVal, true
	}
	switch {
	case ty.IsListType():
		i, known, ok := asIndex(key)
		if !c.IsKnown() && (ok || kty == cty.Number) {
			return cty.UnknownVal(ty.ElementType()), true
		}
		if !ok {
			return cty.DynamicVal, false
		}
		if !known {
			return cty.UnknownVal(ty.ElementType()), true
		}
		if vs := c.AsValueSlice(); i < len(vs) {
			return vs[i], true
		}
	case ty.IsTupleType():
		i, known, ok := asIndex(key)
		if !ok {
			return cty.DynamicVal, false
		}
		if !known {
			return cty.DynamicVal, true
		}
		if i >= len(ty.TupleElementTypes()) {
			return cty.DynamicVal, false
		}
		if !c.IsKnown() {
			return cty.UnknownVal(ty.TupleElementTypes()[i]), true
		}
		return c.AsValueSlice()[i], true
	case ty.IsMapType():
		s, known, ok := asName(key)
		if !ok {
			return cty.DynamicVal, false
		}
		if !known || !c.IsKnown() {
			return cty.UnknownVal(ty.ElementType()), true
		}
		if v, has := c.AsValueMap()[s]; has {
			return v, true
		}
	case ty.IsObjectType():
		s, known, ok := asName(key)
		if !ok {
			return cty.DynamicVal, false
		}
		if !known || !c.IsKnown() {
			return cty.DynamicVal, true
		}
		if v, has := c.AsValueMap()[s]; has {
			return v, true
		}
	}
	return cty.DynamicVal, false
}

// refAttr is attribute access as the language defines it.
func refAttr(c cty.Value, name string) (cty.Value, bool) {
	if c.IsNull() {
		return cty.DynamicVal, false
	}
	ty := c.Type()
	switch {
	case ty == cty.DynamicPseudoType:
		return cty.DynamicVal, true
	case ty.IsObjectType():
		if !ty.HasAttribute(name) {
			return cty.DynamicVal, false
		}
		if !c.IsKnown() {
			return cty.UnknownVal(ty.AttributeType(name)), true
		}
		return c.AsValueMap()[name], true
	case ty.IsMapType():
		if !c.IsKnown() {
			return cty.UnknownVal(ty.ElementType()), true
		}
		if v, has := c.AsValueMap()[name]; has {
			return v, true
		}
	}
	return cty.DynamicVal, false
}

func eval(src string, vars map[string]cty.Value) (cty.Value, hcl.Diagnostics) {
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a well-formed expression is accepted")
	return e.Value(&hcl.EvalContext{Variables: vars, Functions: lib.Funcs()})
}

var rng = hcl.Range{Filename: "r", Start: hcl.Pos{Line: 3, Column: 4, Byte: 50}, End: hcl.Pos{Line: 3, Column: 9, Byte: 55}}

func checked(got cty.Value, diags hcl.Diagnostics, want cty.Value, ok bool, what string) {
	if !ok {
		sym.Cover("error")
		sym.Assert(diags.HasErrors(), what+" that identifies nothing is reported")
		for _, d := range diags {
			sym.Assert(d.Subject != nil && *d.Subject == rng, "a problem is located at the given range")
		}
		return
	}
	sym.Cover("value")
	sym.Assert(len(diags) == 0, what+" on suitable operands succeeds")
	sym.Assert(got.RawEquals(want), what+" gives what the language defines")
}

// Index: the helper, the expression and the definition agree.
func Index() {
	x, y := lib.AnyVal(), lib.AnyVal()
	sym.ObserveStr("x", lib.Show(x))
	sym.ObserveStr("y", lib.Show(y))
	got, diags := hcl.Index(x, y, &rng)
	sym.ObserveStr("val", lib.Show(got))
	want, ok := refIndex(x, y)
	checked(got, diags, want, ok, "indexing")
	ev, ed := eval("x[y]", map[string]cty.Value{"x": x, "y": y})
	sym.Assert(same(got, diags, ev, ed), "the index helper agrees with the operator")
	pv, pd := hcl.ApplyPath(x, cty.Path{cty.IndexStep{Key: y}}, &rng)
	sym.Assert(same(got, diags, pv, pd), "a path of one index agrees with the operator")
	sv, sd := (hcl.TraverseIndex{Key: y, SrcRange: rng}).TraversalStep(x)
	sym.Assert(same(got, diags, sv, sd), "a traversal step agrees with the operator")
	_, nd := hcl.Index(x, y, nil)
	sym.Assert(len(nd) == len(diags), "the range is optional")
}

// Attr: the same for attribute access.
func Attr() {
	x := lib.AnyVal()
	if sym.Choice(4) == 0 {
		x = variable()
	}
	n := string([]byte{sym.ByteIn("abc")})
	sym.ObserveStr("x", lib.Show(x))
	sym.ObserveStr("n", n)
	got, diags := hcl.GetAttr(x, n, &rng)
	sym.ObserveStr("val", lib.Show(got))
	want, ok := refAttr(x, n)
	checked(got, diags, want, ok, "attribute access")
	ev, ed := eval("x."+n, map[string]cty.Value{"x": x})
	sym.Assert(same(got, diags, ev, ed), "the attribute helper agrees with the operator")
	pv, pd := hcl.ApplyPath(x, cty.Path{cty.GetAttrStep{Name: n}}, &rng)
	sym.Assert(same(got, diags, pv, pd), "a path of one attribute agrees with the operator")
	_, nd := hcl.GetAttr(x, n, nil)
	sym.Assert(len(nd) == len(diags), "the range is optional")
}

// Path: longer paths are the composition of their steps.
func Path() {
	x := variable()
	if sym.Choice(3) == 0 {
		x = lib.AnyVal()
	}
	sym.ObserveStr("x", lib.Show(x))
	n := sym.Choice(sym.Param("n", 2) + 1)
	var path cty.Path
	src := "x"
	cur, ok := x, true
	for i := 0; i < n; i++ {
		c := sym.ByteIn("abc")
		name := string([]byte{c})
		switch sym.Choice(4) {
		case 0:
			path = append(path, cty.GetAttrStep{Name: name})
			src += "." + name
			if ok {
				cur, ok = refAttr(cur, name)
			}
		case 1:
			path = append(path, cty.IndexStep{Key: str(name)})
			src += "[\"" + name + "\"]"
			if ok {
				cur, ok = refIndex(cur, str(name))
			}
		case 2:
			k := sym.Concrete(sym.IntRange(0, 2))
			path = append(path, cty.IndexStep{Key: cty.NumberIntVal(int64(k))})
			src += "[" + string([]byte{'0' + byte(k)}) + "]"
			if ok {
				cur, ok = refIndex(cur, cty.NumberIntVal(int64(k)))
			}
		case 3:
			path = append(path, cty.IndexStep{Key: cty.NullVal(cty.Number)})
			src += "[null]"
			ok = false
		}
	}
	sym.ObserveStr("src", src)
	got, diags := hcl.ApplyPath(x, path, &rng)
	sym.ObserveStr("val", lib.Show(got))
	checked(got, diags, cur, ok, "a path")
	ev, ed := eval(src, map[string]cty.Value{"x": x})
	sym.Assert(same(got, diags, ev, ed), "a path agrees with the written-out expression")
}
