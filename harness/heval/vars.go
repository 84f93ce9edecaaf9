package heval

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

type names map[string]bool

// free returns the free names of a form given those of its operands: a loop
// binds its variables in everything but the collection, which is the first
// operand of every loop form.
func free(form string, fx, fy names) names {
	out := names{}
	if has(form, "X") {
		for n := range fx {
			out[n] = true
		}
	}
	if has(form, "Y") {
		for n := range fy {
			if n == "v" && has(form, "v in X") || n == "k" && has(form, "k, v in X") {
				continue
			}
			out[n] = true
		}
	}
	return out
}

var atoms = []struct {
	src  string
	free string
}{
	{"x", "x"}, {"y.a", "y"}, {"v", "v"}, {"k", "k"}, {"x[v]", "xv"}, {"true", ""}, {"[k, v]", "kv"}, {"{v = k}", "k"}, {"y[*].v", "y"}, {"\"${v}\"", "v"}, {"h(k)", "k"}, {"v.k[x]", "vx"},
}

func atom() (string, names) {
	a := atoms[sym.Choice(len(atoms))]
	n := names{}
	for i := range a.free {
		n[a.free[i:i+1]] = true
	}
	return a.src, n
}

func fullScope(c byte) map[string]cty.Value {
	s := cty.StringVal(string([]byte{c}))
	return map[string]cty.Value{
		"x": cty.TupleVal([]cty.Value{s, cty.StringVal("q")}),
		"y": cty.ObjectVal(map[string]cty.Value{"a": s, "v": cty.Zero}),
		"v": cty.NumberIntVal(1),
		"k": s,
	}
}

func same(a, b cty.Value, ad, bd hcl.Diagnostics) bool {
	return ad.HasErrors() == bd.HasErrors() && len(ad) == len(bd) && a.RawEquals(b)
}

func checkVars(src string, want names) {
	sym.ObserveStr("src", src)
	c := sym.ByteIn("a01")
	e := parse(src)
	full := fullScope(c)
	got := names{}
	for _, tr := range e.Variables() {
		got[tr.RootName()] = true
	}
	for _, n := range []string{"x", "y", "v", "k"} {
		sym.ObserveBool(n, got[n])
		sym.Assert(!want[n] || got[n], "every free name is reported")
		sym.Assert(want[n] || !got[n], "no bound or unmentioned name is reported")
	}
	sym.Assert(len(got) == len(want), "only names the expression mentions are reported")
	part := map[string]cty.Value{}
	for n := range got {
		part[n] = full[n]
	}
	fs := lib.Funcs()
	fs["h"] = anyFunc
	v1, d1 := e.Value(&hcl.EvalContext{Variables: full, Functions: fs})
	v2, d2 := e.Value(&hcl.EvalContext{Variables: part, Functions: fs})
	sym.ObserveStr("v", lib.Show(v1))
	sym.Assert(same(v1, v2, d1, d2), "the reported names suffice for evaluation")
	// the values of other names do not matter, even those of names bound inside
	other := map[string]cty.Value{"z": cty.True}
	for _, n := range []string{"x", "y", "v", "k"} {
		if got[n] {
			other[n] = full[n]
		} else {
			other[n] = cty.EmptyObjectVal
		}
	}
	// a child scope with the names split over two levels gives the same
	parent := &hcl.EvalContext{Variables: other, Functions: fs}
	child := parent.NewChild()
	child.Variables = map[string]cty.Value{}
	if got["v"] {
		child.Variables["v"] = full["v"]
		parent.Variables["v"] = cty.EmptyObjectVal
	}
	v3, d3 := e.Value(child)
	sym.Assert(same(v1, v3, d1, d3), "names that are not reported have no influence")
	sym.Assert(len(hclsyntax.Variables(e)) == len(e.Variables()), "both ways of asking give the same names")
}

// Vars1: every form over operands that share names with its loop variables.
func Vars1() {
	f := forms[sym.Choice(len(forms))][0]
	x, fx := atom()
	y, fy := "true", names{}
	if has(f, "Y") {
		y, fy = atom()
	}
	checkVars(subst(f, paren(x), paren(y)), free(f, fx, fy))
}

func paren(s string) string { return "(" + s + ")" }

// Vars2: forms nested in forms.
func Vars2() {
	f := forms[sym.Choice(len(forms))][0]
	g := forms[sym.Choice(len(forms))][0]
	x, fx := atom()
	inner, fi := subst(g, paren(x), "v"), free(g, fx, names{"v": true})
	if sym.Choice(2) == 0 {
		checkVars(subst(f, paren(inner), "k"), free(f, fi, names{"k": true}))
	} else if has(f, "Y") {
		checkVars(subst(f, "x", paren(inner)), free(f, names{"x": true}, fi))
	}
}

// loop is a loop over coll that binds one or two names in its body, with the
// body in one of the places a loop has for it.
func loop(coll, body string, fc, fb names) (string, names) {
	bound := []string{[]string{"v", "k", "x"}[sym.Choice(3)]}
	if sym.Choice(2) == 1 {
		second := []string{"v", "k"}[sym.Choice(2)]
		sym.Assume(second != bound[0])
		bound = append(bound, second)
	}
	head := "for " + bound[0]
	if len(bound) == 2 {
		head += ", " + bound[1]
	}
	head += " in " + coll
	out := names{}
	for n := range fb {
		out[n] = true
	}
	for _, n := range bound {
		delete(out, n)
	}
	for n := range fc {
		out[n] = true
	}
	switch sym.Choice(5) {
	case 0:
		return "[" + head + " : " + body + "]", out
	case 1:
		return "[" + head + " : true if " + body + "]", out
	case 2:
		return "{" + head + " : " + body + " => true}", out
	case 3:
		return "{" + head + " : \"q\" => " + body + "...}", out
	}
	return "\"%{" + head + "}${" + body + "}%{endfor}\"", out
}

// Loops: loops inside each other that bind the same or different names.
func Loops() {
	atoms := []string{"v", "k", "x", "y"}
	name := func() (string, names) {
		n := atoms[sym.Choice(len(atoms))]
		return n, names{n: true}
	}
	body, fb := name()
	coll, fc := name()
	src, f := loop(coll, body, fc, fb)
	for i := 1; i < sym.Param("n", 2); i++ {
		if i == 2 && sym.Choice(2) == 1 {
			src, f = loop(src, "v", f, names{"v": true})
		} else {
			src, f = loop("y", src, names{"y": true}, f)
		}
	}
	checkVars(src, f)
}
