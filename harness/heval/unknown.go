package heval

import (
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

func sound(src string, ux, uy, cx, cy cty.Value) {
	sym.ObserveStr("src", src)
	sym.ObserveStr("x", lib.Show(ux))
	sym.ObserveStr("y", lib.Show(uy))
	sym.ObserveStr("cx", lib.Show(cx))
	sym.ObserveStr("cy", lib.Show(cy))
	if lib.Dynamic(ux) || lib.Dynamic(uy) {
		// the type both branches of a conditional are converted to is not
		// decided before their types are known; whether tuples of partly
		// unknown type are equal is up to the value library
		if has(src, "?") || has(src, "==") || has(src, "!=") {
			return
		}
	}
	e := parse(src)
	u, ud := e.Value(scope(ux, uy))
	c, cd := e.Value(scope(cx, cy))
	sym.ObserveStr("u", lib.Show(u))
	sym.ObserveStr("c", lib.Show(c))
	if ud.HasErrors() {
		sym.Cover("error")
		return
	}
	if u.IsWhollyKnown() {
		sym.Cover("known")
		// an error in a part the result does not depend on may show up later
		sym.Assert(cd.HasErrors() || u.RawEquals(c), "a result known early is the final result")
		return
	}
	if cd.HasErrors() {
		return
	}
	sym.Cover("unknown")
	sym.Assert(lib.StandsFor(u, c), "an unknown result stands for the final one")
}

func has(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func fewPairs() (u, c cty.Value) {
	return lib.Pair([]int{0, 2, 3, 5, 8, 12}[sym.Choice(6)])
}

// Unknown1: every form with one operand not known, or both.
func Unknown1() {
	f := forms[sym.Choice(len(forms))]
	ux, cx := lib.AnyPair()
	uy, cy := cty.True, cty.True
	if has(f[0], "Y") {
		switch sym.Choice(3) {
		case 0:
			uy = lib.KnownVals()
			cy = uy
		case 1:
			uy, cy = fewPairs()
		case 2:
			uy, cy = ux, cx
			ux = lib.KnownVals()
			cx = ux
		}
	}
	sound(subst(f[0], "x", "y"), ux, uy, cx, cy)
}

// Unknown2: every form applied to the result of every form.
func Unknown2() {
	f := forms[sym.Choice(len(forms))]
	g := forms[sym.Choice(len(forms))]
	var ux, cx cty.Value
	if sym.Param("few", 0) != 0 {
		ux, cx = fewPairs()
	} else {
		ux, cx = lib.AnyPair()
	}
	var src, in string
	if sym.Param("pos", 0) == 0 {
		in = subst(g[0], "x", "true")
		src = subst(f[0], "("+in+")", "x")
	} else {
		in = subst(g[0], "x", "0")
		src = subst(f[0], "x", "("+in+")")
	}
	if has(f[0], "?") || has(f[0], "==") || has(f[0], "!=") {
		if v, _ := parse(in).Value(scope(ux, cty.True)); lib.Dynamic(v) {
			return // as above
		}
	}
	if has(f[0], "*") && has(g[0], "null") {
		return // see SplatNull
	}
	sound(src, ux, cty.True, cx, cty.True)
}

// SplatNull: a splat of a value of a type that is no sequence, not known yet.
func SplatNull() {
	ux := cty.UnknownVal([]cty.Type{cty.String, cty.Map(cty.String), cty.EmptyObject}[sym.Choice(3)])
	sound([]string{"x.*", "x[*]"}[sym.Choice(2)], ux, cty.True, cty.NullVal(ux.Type()), cty.True)
}
