package heval

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// elem is one step of an iteration: a key and an element.
type elem struct {
	k cty.Value
	v string
}

// coll returns a collection with symbolic elements and its elements in the
// order of iteration. The order of a set is left open.
func coll(n int) (cty.Value, []elem, string) {
	var es []elem
	var vs []cty.Value
	kind := []string{"tuple", "list", "map", "object", "set"}[sym.Choice(5)]
	n = sym.Choice(n + 1)
	switch kind {
	case "tuple", "list", "set":
		for i := 0; i < n; i++ {
			s := string([]byte{sym.ByteIn("abc")})
			es = append(es, elem{cty.NumberIntVal(int64(i)), s})
			vs = append(vs, cty.StringVal(s))
		}
	default:
		// strictly increasing symbolic keys
		m := map[string]cty.Value{}
		prev := byte('a' - 1)
		for i := 0; i < n; i++ {
			c := sym.ByteIn("abcde")
			sym.Assume(c > prev)
			prev = c
			s := string([]byte{sym.ByteIn("abc")})
			es = append(es, elem{cty.StringVal(string([]byte{c})), s})
			m[string([]byte{c})] = cty.StringVal(s)
		}
		if kind == "object" {
			return cty.ObjectVal(m), es, kind
		}
		if n == 0 {
			return cty.MapValEmpty(cty.String), es, kind
		}
		return cty.MapVal(m), es, kind
	}
	switch {
	case kind == "tuple":
		return cty.TupleVal(vs), es, kind
	case n == 0 && kind == "list":
		return cty.ListValEmpty(cty.String), es, kind
	case n == 0:
		return cty.SetValEmpty(cty.String), es, kind
	case kind == "list":
		return cty.ListVal(vs), es, kind
	}
	// in a set equal elements are one, and an element is its own key
	var out []elem
	for i, e := range es {
		dup := false
		for _, f := range es[:i] {
			dup = dup || f.v == e.v
		}
		if !dup {
			out = append(out, elem{cty.StringVal(e.v), e.v})
		}
	}
	return cty.SetVal(vs), out, kind
}

func eval(src string, vars map[string]cty.Value) (cty.Value, hcl.Diagnostics) {
	return parse(src).Value(&hcl.EvalContext{Variables: vars, Functions: lib.Funcs()})
}

func sameUnordered(got cty.Value, want []cty.Value) bool {
	gs := got.AsValueSlice()
	if len(gs) != len(want) {
		return false
	}
	used := make([]bool, len(want))
	for _, g := range gs {
		found := false
		for i, w := range want {
			if !used[i] && g.RawEquals(w) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func tuple(vs []cty.Value) cty.Value { return cty.TupleVal(vs) }

// For: all kinds of for expression over all kinds of collection.
func For() {
	c, es, kind := coll(sym.Param("n", 2))
	lim := string([]byte{sym.ByteIn("abc")})
	form := sym.Choice(8)
	src := []string{
		"[for v in x: v]", "[for k, v in x: [k, v]]", "[for v in x: \"<${v}>\" if v != c]", "[for k, v in x: k if v == c]",
		"{for k, v in x: k => v}", "{for k, v in x: v => k}", "{for k, v in x: v => k...}", "{for k, v in x: v => k... if v != c}",
	}[form]
	sym.ObserveStr("src", src)
	sym.ObserveStr("c", lim)
	sym.ObserveInt("len", len(es))
	sym.ObserveStr("kind", kind)
	for _, e := range es {
		sym.ObserveStr("e", e.v)
	}
	got, diags := eval(src, map[string]cty.Value{"x": c, "c": cty.StringVal(lim)})
	if kind != "set" {
		sym.ObserveStr("val", lib.Show(got))
	}
	if form < 4 {
		want := []cty.Value{}
		for _, e := range es {
			v := cty.StringVal(e.v)
			switch form {
			case 0:
				want = append(want, v)
			case 1:
				want = append(want, tuple([]cty.Value{e.k, v}))
			case 2:
				if e.v != lim {
					want = append(want, cty.StringVal("<"+e.v+">"))
				}
			case 3:
				if e.v == lim {
					want = append(want, e.k)
				}
			}
		}
		sym.Assert(!diags.HasErrors(), "iterating over a collection succeeds")
		sym.Assert(got.Type().IsTupleType(), "a bracketed for expression gives a tuple")
		if kind == "set" {
			sym.Assert(sameUnordered(got, want), "every element of a set is visited once")
		} else {
			sym.Assert(got.RawEquals(tuple(want)), "a for expression yields its results in order")
		}
		sym.Cover("tuple")
		return
	}
	keys := []string{}
	vals := map[string][]cty.Value{}
	for _, e := range es {
		k, v := e.v, e.k
		if form == 4 {
			if e.k.Type() == cty.String {
				k = e.k.AsString()
			} else {
				k = string([]byte{'0' + byte(len(keys))})
			}
			v = cty.StringVal(e.v)
		}
		if form == 7 && e.v == lim {
			continue
		}
		if len(vals[k]) == 0 || form == 4 {
			keys = append(keys, k)
		}
		vals[k] = append(vals[k], v)
	}
	dup := false
	m := map[string]cty.Value{}
	for _, k := range keys {
		dup = dup || len(vals[k]) > 1
		if form >= 6 {
			m[k] = tuple(vals[k])
		} else {
			m[k] = vals[k][0]
		}
	}
	if form < 6 && dup {
		sym.Cover("duplicate")
		sym.Assert(diags.HasErrors(), "two elements with the same key are reported")
		return
	}
	sym.Cover("object")
	sym.Assert(!diags.HasErrors(), "building an object with distinct keys succeeds")
	sym.Assert(got.RawEquals(cty.ObjectVal(m)), "a for expression builds exactly the keyed results")
}

// ForErrs: elements for which a part of a for expression fails.
func ForErrs() {
	n := sym.Choice(sym.Param("n", 3) + 1)
	elems := make([]byte, n)
	vs := make([]cty.Value, n)
	for i := range vs {
		elems[i] = sym.ByteIn("abcde")
		vs[i] = cty.StringVal(string(elems[i : i+1]))
	}
	sym.ObserveBytes("elems", elems)
	x := tuple(vs)
	if n > 0 && sym.Bool() {
		x = cty.ListVal(vs)
	}
	null := cty.NullVal(cty.String)
	m := map[string]cty.Value{"a": cty.StringVal("p"), "b": null, "d": cty.StringVal("q"), "e": cty.StringVal("r")}
	t := map[string]cty.Value{"a": cty.True, "b": cty.NullVal(cty.Bool), "d": cty.StringVal("no"), "e": cty.False}
	forms := []struct{ src, fail string }{
		{"[for v in x: m[v]]", "c"},
		{"[for v in x: v if t[v]]", "bcd"},
		{"{for v in x: v => m[v]...}", "c"},
		{"{for v in x: m[v] => v...}", "bc"},
		{"{for v in x: v => v... if t[v]}", "bcd"},
		{"{for k, v in x: k => m[v]}", "c"},
		{"{for v in x: v => v}", ""},
		{"{for k, v in x: k => v if t[v]}", "bcd"},
		{"{for v in x: m[v] => v... if v != \"z\"}", "bc"},
		{"{for v in x: v => m[v]... if v != \"z\"}", "c"},
		{"[for v in x: m[v] if v != \"z\"]", "c"},
	}
	form := sym.Choice(len(forms))
	src := forms[form].src
	sym.ObserveStr("src", src)
	got, diags := eval(src, map[string]cty.Value{"x": x, "m": cty.ObjectVal(m), "t": cty.ObjectVal(t)})
	fail := false
	for i, c := range elems {
		fail = fail || strings.IndexByte(forms[form].fail, c) >= 0
		if form == 6 {
			for _, d := range elems[:i] {
				fail = fail || c == d
			}
		}
	}
	sym.Assert(diags.HasErrors() == fail, "exactly the elements that fail are reported")
	if fail {
		sym.Cover("failed")
		return
	}
	var seq []cty.Value
	obj := map[string]cty.Value{}
	group := map[string][]cty.Value{}
	for i, c := range elems {
		v, e := vs[i], string([]byte{c})
		k := string([]byte{'0' + byte(i)})
		switch form {
		case 0, 10:
			seq = append(seq, m[e])
		case 1:
			if c == 'a' {
				seq = append(seq, v)
			}
		case 2, 9:
			group[e] = append(group[e], m[e])
		case 3, 8:
			key := m[e].AsString()
			group[key] = append(group[key], v)
		case 4:
			if c == 'a' {
				group[e] = append(group[e], v)
			}
		case 5:
			obj[k] = m[e]
		case 6:
			obj[e] = v
		case 7:
			if c == 'a' {
				obj[k] = v
			}
		}
	}
	for k, g := range group {
		obj[k] = tuple(g)
	}
	want := cty.ObjectVal(obj)
	if form < 2 || form == 10 {
		want = tuple(seq)
	}
	sym.Assert(got.RawEquals(want), "the results of all the elements")
	sym.Cover("built")
}

// Splat: attribute access and indexing on every element.
func Splat() {
	n := sym.Choice(sym.Param("n", 2) + 1)
	kind := sym.Choice(9)
	mk := func() (cty.Value, cty.Value) {
		s := lib.StrC("abc")
		return cty.ObjectVal(map[string]cty.Value{"a": cty.TupleVal([]cty.Value{s})}), s
	}
	var vs, ss []cty.Value
	for i := 0; i < n; i++ {
		v, s := mk()
		vs, ss = append(vs, v), append(ss, s)
	}
	empty, _ := mk()
	var x cty.Value
	switch kind {
	case 0:
		x = cty.TupleVal(vs)
	case 1:
		x = cty.ListValEmpty(empty.Type())
		if n > 0 {
			x = cty.ListVal(vs)
		}
	case 2:
		if n > 1 {
			return
		}
		x = cty.SetValEmpty(empty.Type())
		if n > 0 {
			x = cty.SetVal(vs)
		}
	case 3:
		var s cty.Value
		x, s = mk()
		ss = []cty.Value{s}
	case 4:
		x = cty.NullVal(empty.Type())
		ss = nil
	case 5:
		x = cty.NullVal(cty.DynamicPseudoType)
		ss = nil
	case 6:
		x = cty.NullVal(cty.TupleVal(vs).Type())
	case 7:
		x = cty.NullVal(cty.List(empty.Type()))
	case 8:
		x = cty.NullVal(cty.Set(empty.Type()))
	}
	form := sym.Choice(6)
	src := []string{"x.*.a", "x[*].a", "x[*].a[0]", "x.*.a[0]", "x[*]", "x[*].b"}[form]
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	got, diags := eval(src, map[string]cty.Value{"x": x})
	sym.ObserveStr("val", lib.Show(got))
	if kind == 5 {
		// a null of unknown type
		sym.Assert(!diags.HasErrors(), "a splat of null is no error")
		return
	}
	if kind > 5 {
		sym.Assert(diags.HasErrors(), "a splat of a null sequence is reported")
		return
	}
	if form == 5 {
		if len(ss) > 0 {
			sym.Assert(diags.HasErrors(), "a missing attribute is reported")
		}
		return
	}
	if form == 3 && len(ss) == 0 {
		sym.Assert(diags.HasErrors(), "an index that identifies no element is reported")
		return
	}
	sym.Assert(!diags.HasErrors(), "a splat over suitable elements succeeds")
	var want []cty.Value
	for _, s := range ss {
		switch form {
		case 0, 1:
			want = append(want, cty.TupleVal([]cty.Value{s}))
		case 2:
			want = append(want, s)
		case 4:
			want = append(want, cty.ObjectVal(map[string]cty.Value{"a": cty.TupleVal([]cty.Value{s})}))
		}
	}
	if form == 3 {
		// an index after an attribute-only splat applies to the result
		sym.Assert(got.RawEquals(cty.TupleVal([]cty.Value{ss[0]})), "an index after an attribute-only splat selects from the result")
		return
	}
	sym.Cover("splat")
	if kind == 1 || kind == 2 {
		sym.Assert(got.Type().IsListType(), "a splat over a list or set gives a list")
	} else {
		sym.Assert(got.Type().IsTupleType(), "a splat over other values gives a tuple")
	}
	sym.Assert(got.LengthInt() == len(want), "a splat gives one result per element")
	for i, g := range got.AsValueSlice() {
		sym.Assert(g.RawEquals(want[i]), "a splat gives the result of each element in order")
	}
}

// Cond: conditionals over conditions and results of several types.
func Cond() {
	var c cty.Value
	want := 0 // 1 true, 2 false, 3 error, 4 unknown
	switch sym.Choice(7) {
	case 0:
		b := sym.Bool()
		c = cty.BoolVal(b)
		want = 2
		if b {
			want = 1
		}
	case 1:
		s := sym.StrIn("true", 4)
		c = cty.StringVal(s)
		want = 3
		if s == "true" {
			want = 1
		}
	case 2:
		c, want = cty.StringVal("false"), 2
	case 3:
		c, want = lib.NumC(2, 3), 3
	case 4:
		c, want = cty.NullVal(cty.Bool), 3
	case 5:
		c, want = cty.UnknownVal(cty.Bool), 4
	case 6:
		c, want = cty.EmptyTupleVal, 3
	}
	prim := func() (v, asStr cty.Value) {
		switch sym.Choice(4) {
		case 0:
			v = lib.StrC("xyz")
			return v, v
		case 1:
			n := sym.Concrete(sym.IntRange(0, 2))
			return cty.NumberIntVal(int64(n)), cty.StringVal(string([]byte{'0' + byte(n)}))
		case 2:
			if sym.Bool() {
				return cty.True, cty.StringVal("true")
			}
			return cty.False, cty.StringVal("false")
		}
		return cty.NullVal(cty.DynamicPseudoType), cty.NullVal(cty.String)
	}
	x, xs := prim()
	y, ys := prim()
	sym.ObserveStr("c", lib.Show(c))
	sym.ObserveStr("x", lib.Show(x))
	sym.ObserveStr("y", lib.Show(y))
	got, diags := eval("c ? x : y", map[string]cty.Value{"c": c, "x": x, "y": y})
	sym.ObserveStr("val", lib.Show(got))
	xt, yt := x.Type(), y.Type()
	var ty cty.Type
	switch {
	case xt == yt || yt == cty.DynamicPseudoType:
		ty = xt
	case xt == cty.DynamicPseudoType:
		ty = yt
	case xt == cty.String || yt == cty.String:
		ty = cty.String
	default:
		sym.Cover("inconsistent")
		sym.Assert(diags.HasErrors(), "branches without a common type are reported")
		return
	}
	switch want {
	case 3:
		sym.Assert(diags.HasErrors(), "an unusable condition is reported")
		return
	case 4:
		sym.Assert(!diags.HasErrors() && !got.IsKnown() && got.Type() == ty, "an unknown condition gives an unknown result of the common type")
		return
	}
	sym.Cover("selected")
	sym.Assert(!diags.HasErrors(), "selecting a branch succeeds")
	v, s := x, xs
	if want == 2 {
		v, s = y, ys
	}
	if v.IsNull() {
		v = cty.NullVal(ty)
		if ty == cty.String {
			s = v
		}
	}
	if ty == cty.String {
		v = s
	}
	sym.Assert(got.RawEquals(v), "a conditional gives the selected branch in the common type")
}

// CondOther: problems of the branch that is not selected do not matter.
func CondOther() {
	bad := []string{"u", "[][0]", "{}.a", "1 + \"x\"", "nofunc()", "[for v in 1 : v]"}[sym.Choice(6)]
	c, first := sym.Bool(), sym.Bool()
	x := lib.KnownVals()
	src := "c ? (x) : (" + bad + ")"
	if first {
		src = "c ? (" + bad + ") : (x)"
	}
	sym.ObserveStr("src", src)
	got, diags := eval(src, map[string]cty.Value{"c": cty.BoolVal(c), "x": x})
	if c == first {
		sym.Assert(diags.HasErrors(), "a problem of the selected branch is reported")
		return
	}
	if bad == "1 + \"x\"" {
		// has a type even though it fails, which need not agree
		return
	}
	sym.Assert(!diags.HasErrors() && got.RawEquals(x), "only the selected branch matters")
	sym.Cover("other")
}

// Idx: indexing sequences and maps with numbers and strings.
func Idx() {
	n := sym.Choice(4)
	var x cty.Value
	var want cty.Value
	var src string
	vars := map[string]cty.Value{}
	if sym.Choice(2) == 0 {
		var vs []cty.Value
		for i := 0; i < n; i++ {
			vs = append(vs, lib.StrC("abc"))
		}
		x = cty.ListValEmpty(cty.String)
		if sym.Choice(2) == 0 {
			x = cty.TupleVal(vs)
		} else if n > 0 {
			x = cty.ListVal(vs)
		}
		i := sym.Concrete(sym.IntRange(-1, 3))
		if i >= 0 && i < n {
			want = vs[i]
		}
		switch sym.Choice(7) {
		case 3:
			// neither a fraction nor another kind of value identifies an element
			src, vars["i"], want = "x[i + 0.5]", cty.NumberIntVal(int64(i)), cty.NilVal
		case 4:
			src, vars["i"], want = "x[i]", cty.BoolVal(sym.Bool()), cty.NilVal
		case 5:
			src, vars["i"], want = "x[i]", cty.NullVal(cty.Number), cty.NilVal
		case 6:
			src, vars["i"], want = "x.i", cty.NumberIntVal(int64(i)), cty.NilVal
		case 0:
			src, vars["i"] = "x[i]", cty.NumberIntVal(int64(i))
		case 1:
			sym.Assume(i >= 0)
			d := sym.ByteIn("0123")
			sym.Assume(int(d-'0') == i)
			src, vars["i"] = "x[i]", cty.StringVal(string([]byte{d}))
		case 2:
			sym.Assume(i >= 0)
			src = "x." + string([]byte{'0' + byte(i)})
		}
	} else {
		m := map[string]cty.Value{}
		prev := byte('a' - 1)
		k := sym.ByteIn("abcde")
		for i := 0; i < n; i++ {
			c := sym.ByteIn("abcde")
			sym.Assume(c > prev)
			prev = c
			v := lib.StrC("abc")
			m[string([]byte{c})] = v
			if c == k {
				want = v
			}
		}
		x = cty.MapValEmpty(cty.String)
		if sym.Choice(2) == 0 {
			x = cty.ObjectVal(m)
		} else if n > 0 {
			x = cty.MapVal(m)
		}
		if sym.Choice(2) == 0 {
			src, vars["i"] = "x[i]", cty.StringVal(string([]byte{k}))
		} else {
			src = "x." + string([]byte{k})
		}
	}
	vars["x"] = x
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(x))
	got, diags := eval(src, vars)
	sym.ObserveStr("val", lib.Show(got))
	if want == cty.NilVal {
		sym.Cover("missing")
		sym.Assert(diags.HasErrors(), "an index that identifies no element is reported")
		return
	}
	sym.Cover("found")
	sym.Assert(!diags.HasErrors(), "indexing an element succeeds")
	sym.Assert(got.RawEquals(want), "indexing gives the element identified")
}
