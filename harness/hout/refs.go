package hout

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/hout/tool"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

var refExprs = []string{"1", "v", "v.x", "v[0]", "w[\"x\"].y[1]", "w.*.x", "[v, w]", "v.y", "w[-1]", "v[1.5]"}

// Refs: the variables that the input refers to.
func Refs() {
	spec, want := specs()
	g := &lib.GenBody{Names: "abcd", Left: sym.Param("items", 2), MaxLabels: 1, Expr: func() string {
		return refExprs[sym.Choice(len(refExprs))]
	}}
	g.Body(1)
	sym.ObserveBytes("input", g.Src)
	in := parse(g.Src, "in0")
	ctx := (*hcl.EvalContext)(nil)
	var args []string
	if sym.Bool() {
		args = []string{"{\"v\": {\"x\": [1, null]}}"}
		ctx = &hcl.EvalContext{Variables: map[string]cty.Value{
			"v": cty.ObjectVal(map[string]cty.Value{"x": cty.TupleVal([]cty.Value{cty.NumberIntVal(1), cty.NullVal(cty.DynamicPseudoType)})}),
		}}
	}
	code, out, _ := tool.Run(spec, []*hcl.File{in}, args, false, true)
	sym.ObserveBytes("out", out)
	sym.Assert(code == 0, "references are always listed")
	n := readJSON(out)
	vs := hcldec.Variables(in.Body, want)
	sym.Assert(n.kind == '[' && len(n.kids) == len(vs), "every reference is listed")
	used := make([]bool, len(vs))
	for _, t := range vs {
		found := false
		for i, k := range n.kids {
			if !used[i] && !found && k.isRef(t, ctx) {
				used[i], found = true, true
			}
		}
		sym.Assert(found, "a reference is listed as it is")
		sym.Cover("reference")
	}
}

func (n *node) isRef(t hcl.Traversal, ctx *hcl.EvalContext) bool {
	st := n.get("steps")
	if n.str("root_name") != t.RootName() || !n.get("range").isRange(t.SourceRange()) || st == nil || len(st.kids) != len(t) {
		return false
	}
	for i, step := range t {
		k := st.kids[i]
		if !k.get("range").isRange(step.SourceRange()) {
			return false
		}
		switch s := step.(type) {
		case hcl.TraverseRoot:
			if k.str("kind") != "root" || k.str("name") != s.Name {
				return false
			}
		case hcl.TraverseAttr:
			if k.str("kind") != "attr" || k.str("name") != s.Name {
				return false
			}
		case hcl.TraverseIndex:
			if k.str("kind") != "index" || k.get("key") == nil || !k.get("key").is(s.Key) {
				return false
			}
		}
	}
	v, d := t.TraverseAbs(ctx)
	p := n.get("value")
	if d.HasErrors() {
		return p == nil
	}
	return p != nil && p.isWhole(v)
}

// isWhole is like is for a value of which nothing is left out.
func (n *node) isWhole(v cty.Value) bool {
	ty := v.Type()
	if v.IsNull() || ty.IsPrimitiveType() {
		return n.is(v)
	}
	i := 0
	for it := v.ElementIterator(); it.Next(); i++ {
		k, e := it.Element()
		var p *node
		if ty.IsObjectType() || ty.IsMapType() {
			p = n.get(k.AsString())
		} else if i < len(n.kids) {
			p = n.kids[i]
		}
		if p == nil || !p.isWhole(e) {
			return false
		}
	}
	return len(n.kids) == i
}

// Vars: variables are those of the specification and of the arguments, of
// which the last one to define a variable counts. Arguments are data: no
// template is evaluated.
func Vars() {
	n := sym.Param("n", 2)
	var v cty.Value
	defined, bad, any, file := false, false, false, false
	src := "attr {\nname = \"a\"\ntype = any\n}\n"
	if sym.Bool() {
		src = "variables {\nv = \"s\"\n}\n" + src
		v, defined, any = cty.StringVal("s"), true, true
	}
	var args []string
	for i := sym.Choice(n + 1); i > 0; i-- {
		switch c := sym.ByteIn("0149"); sym.Choice(7) {
		case 0:
			args = append(args, "{\"v\": ["+string([]byte{c})+", null]}")
			v = cty.TupleVal([]cty.Value{cty.NumberIntVal(int64(c - '0')), cty.NullVal(cty.DynamicPseudoType)})
			defined, any = true, true
		case 1:
			args = append(args, "\n{\"w\": true, \"x\": \"\"}")
			any = true
		case 2:
			args = append(args, "{}")
		case 3:
			args = append(args, "{\"v\": }")
			bad = true
		case 4:
			args = append(args, "{\"v\": \"${"+string([]byte{c})+"}.\"}")
			v = cty.StringVal("${" + string([]byte{c}) + "}.")
			defined, any = true, true
		case 5:
			args = append(args, "{\"w\": 1, \"x\": 2, \"w\": 3}")
			bad = true
		case 6:
			if file {
				continue
			}
			file = true
			args = append(args, "vars")
			defined, any = true, true
			text := []string{"v = " + string([]byte{c}) + "\n", "w = y\nv = 1\n", "v = 1\nb {\n}\n", "w = 1\nz = 1 + []\n"}
			k := sym.Choice(len(text))
			v = cty.NumberIntVal(int64(c - '0'))
			bad = bad || k > 0
			sym.ObserveStr("file", text[k])
			tool.VarFile = parse([]byte(text[k]), "vars")
		}
	}
	in := parse([]byte("a = [v]\n"), "in0")
	for _, a := range args {
		sym.ObserveStr("argument", a)
	}
	code, out, diags := tool.Run(parse([]byte(src), "spec"), []*hcl.File{in}, args, false, false)
	sym.ObserveBytes("out", out)
	if bad || !defined {
		sym.Assert(code == 2 && len(out) == 0, "wrong arguments and undefined variables are reported")
		l := readJSON(diags).get("diagnostics")
		sym.Assert(l != nil && len(l.kids) > 0, "the problem is listed")
		if !bad && !any {
			sym.Assert(len(l.kids) == 1 && l.kids[0].str("summary") == "Variables not allowed", "variables are not allowed if there are none")
		}
		return
	}
	sym.Assert(code == 0 && len(diags) == 0, "right arguments are accepted")
	sym.Assert(readJSON(out).is(cty.TupleVal([]cty.Value{v})), "the last definition of a variable counts")
	sym.Cover("value")
}
