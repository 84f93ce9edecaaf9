// Package hout holds the harnesses about what the hcldec command prints.
package hout

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/hout/tool"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

func parse(src []byte, name string) *hcl.File {
	f, d := hclsyntax.ParseConfig(src, name, lib.Start)
	sym.Assert(!d.HasErrors(), "valid syntax")
	return f
}

// Numbers: numbers of any size are printed exactly.
func Numbers() {
	n := []byte("")
	if sym.Bool() {
		n = append(n, '-')
	}
	n = append(n, sym.ByteIn("19"))
	for i := sym.Choice(sym.Param("zeros", 25)); i > 0; i-- {
		n = append(n, '0')
	}
	k := len(n)
	n = append(n, sym.StrIn("0137", sym.Param("n", 2))...)
	if sym.Bool() {
		n = append(n[:k], append([]byte{'.'}, n[k:]...)...)
		n = append(n, '7')
	}
	want, err := cty.ParseNumberVal(string(n))
	sym.Assert(err == nil, "a number")
	sym.ObserveBytes("number", n)
	spec, in := "attr {\nname = \"a\"\ntype = number\n}\n", "a = "+string(n)+"\n"
	switch sym.Choice(3) {
	case 1:
		spec = "attr {\nname = \"a\"\ntype = list(number)\n}\n"
		in = "a = [1, " + string(n) + "]\n"
		want = cty.ListVal([]cty.Value{cty.NumberIntVal(1), want})
	case 2:
		spec = "object {\nattr \"x\" {\nname = \"a\"\ntype = any\n}\n}\n"
		want = cty.ObjectVal(map[string]cty.Value{"x": want})
	}
	code, out, _ := tool.Run(parse([]byte(spec), "spec"), []*hcl.File{parse([]byte(in), "in0")}, nil, false, false)
	sym.ObserveBytes("out", out)
	sym.Assert(code == 0, "right input is accepted")
	sym.Assert(readJSON(out).is(want), "the number is printed exactly")
}

const specSrc = `
object {
  attr "p" {
    name = "a"
    type = any
  }
  attr "q" {
    name     = "b"
    type     = list(string)
    required = %
  }
  block_map "r" {
    block_type = "c"
    labels     = ["l"]
    object {
      attr "s" {
        name = "a"
        type = string
      }
      attr "t" {
        name = "b"
        type = map(string)
      }
    }
  }
  default "u" {
    attr {
      name = "d"
      type = string
    }
    literal {
      value = "none"
    }
  }
}
`

// required returns the specification above, in which b may be required, and
// what it means.
func specs() (*hcl.File, hcldec.Spec) {
	req := sym.Bool()
	t := "false"
	if req {
		t = "true"
	}
	var src []byte
	for i := 0; i < len(specSrc); i++ {
		if specSrc[i] == '%' {
			src = append(src, t...)
			continue
		}
		src = append(src, specSrc[i])
	}
	return parse(src, "spec"), hcldec.ObjectSpec{
		"p": &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType},
		"q": &hcldec.AttrSpec{Name: "b", Type: cty.List(cty.String), Required: req},
		"r": &hcldec.BlockMapSpec{TypeName: "c", LabelNames: []string{"l"}, Nested: hcldec.ObjectSpec{
			"s": &hcldec.AttrSpec{Name: "a", Type: cty.String},
			"t": &hcldec.AttrSpec{Name: "b", Type: cty.Map(cty.String)},
		}},
		"u": &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "d", Type: cty.String}, Default: &hcldec.LiteralSpec{Value: cty.StringVal("none")}},
	}
}

// exprs are the values of arguments. The variables v and w may be defined.
var exprs = []string{"null", "[v, \"${w}\"]", "{k = null, l = [{m = null}]}", "[\n] + 1", "\"x\"", "1", "[\"x\", null]", "v", "<C>", "{m = w}", "[]", "true", "[null, {m = null, n = [{}]}]"}

func body(n int) []byte {
	g := &lib.GenBody{Names: "abcde"[:sym.Param("names", 5)], Left: n, MaxLabels: 1, Expr: func() string {
		e := exprs[sym.Choice(sym.Param("exprs", len(exprs)))]
		if e == "<C>" {
			return "\"" + string([]byte{sym.ByteIn("<x'\x7f&")}) + []string{"", "\\n", "\\\"", "\\\\", "\\u2028"}[sym.Choice(5)] + "\""
		}
		return e
	}}
	g.Body(1)
	return g.Src
}

// Output: the value is printed, or the problems are.
func Output() {
	spec, want := specs()
	src := body(sym.Param("items", 2))
	sym.ObserveBytes("input", src)
	in := parse(src, "in0")
	files := []*hcl.File{in}
	b := in.Body
	if sym.Param("two", 0) > 0 {
		src := body(sym.Param("two", 0))
		sym.ObserveBytes("second", src)
		files = append(files, parse(src, "in1"))
		b = hcl.MergeFiles(files)
	}
	var ctx *hcl.EvalContext
	var args []string
	if sym.Bool() {
		args = []string{"{\"v\": \"x\", \"w\": 2}"}
		vs := map[string]cty.Value{"v": cty.StringVal("x"), "w": cty.NumberIntVal(2)}
		if sym.Bool() {
			args = append(args, " {\"w\": \"y\"}")
			vs["w"] = cty.StringVal("y")
		}
		ctx = &hcl.EvalContext{Variables: vs}
	}
	v, d := hcldec.Decode(b, want, ctx)
	withType := sym.Param("type", 0) > 0
	code, out, diags := tool.Run(spec, files, args, withType, false)
	sym.ObserveBytes("out", out)
	if d.HasErrors() {
		sym.Assert(code == 2, "the exit status tells about problems")
		sym.Assert(len(out) == 0, "no value is printed if there are problems")
		same(diags, d)
		sym.Cover("problems")
		return
	}
	sym.Assert(code == 0, "right input is accepted")
	sym.Assert(len(diags) == 0, "no problem is reported for right input")
	n := readJSON(out)
	if withType {
		t := n.get("type")
		sym.Assert(n.kind == '{' && len(n.keys) == 2 && t != nil && n.get("value") != nil, "the value and its type are printed")
		sym.Assert(t.isType(v.Type()), "the type of the value is printed")
		n = n.get("value")
	}
	sym.Assert(n.is(v), "the value is printed")
	sym.Cover("value")
}

// isType tells whether a JSON value describes a type.
func (n *node) isType(ty cty.Type) bool {
	switch {
	case ty == cty.String:
		return n.kind == 's' && n.s == "string"
	case ty == cty.Number:
		return n.kind == 's' && n.s == "number"
	case ty == cty.Bool:
		return n.kind == 's' && n.s == "bool"
	case ty == cty.DynamicPseudoType:
		return n.kind == 's' && n.s == "dynamic"
	}
	if n.kind != '[' || len(n.kids) != 2 || n.kids[0].kind != 's' {
		return false
	}
	k, e := n.kids[0].s, n.kids[1]
	switch {
	case ty.IsListType():
		return k == "list" && e.isType(ty.ElementType())
	case ty.IsSetType():
		return k == "set" && e.isType(ty.ElementType())
	case ty.IsMapType():
		return k == "map" && e.isType(ty.ElementType())
	case ty.IsTupleType():
		es := ty.TupleElementTypes()
		if k != "tuple" || len(e.kids) != len(es) {
			return false
		}
		for i := range es {
			if !e.kids[i].isType(es[i]) {
				return false
			}
		}
		return true
	}
	if k != "object" || e.kind != '{' || len(e.keys) != len(ty.AttributeTypes()) {
		return false
	}
	for i, k := range e.keys {
		if !ty.HasAttribute(k) || !e.kids[i].isType(ty.AttributeType(k)) {
			return false
		}
	}
	return true
}

// same checks that the JSON text lists the given problems in any order.
func same(b []byte, d hcl.Diagnostics) {
	n := readJSON(b)
	l := n.get("diagnostics")
	sym.Assert(l != nil && l.kind == '[' && len(l.kids) == len(d), "every problem is listed")
	used := make([]bool, len(d))
	for _, want := range d {
		found := false
		for i, k := range l.kids {
			if !used[i] && !found && k.isDiag(want) {
				used[i], found = true, true
			}
		}
		sym.Assert(found, "a problem is listed as it is")
	}
}

func (n *node) isDiag(d *hcl.Diagnostic) bool {
	sev := "error"
	if d.Severity == hcl.DiagWarning {
		sev = "warning"
	}
	if n.str("severity") != sev || n.str("summary") != d.Summary || first(n.str("detail")) != first(d.Detail) {
		return false
	}
	s := n.get("subject")
	if d.Subject == nil {
		return s == nil
	}
	return s != nil && s.isRange(*d.Subject)
}

// first returns the start of a text. What follows may be a suggestion, which
// depends on the order of maps.
func first(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '.' {
			return s[:i]
		}
	}
	return s
}

func (n *node) isRange(r hcl.Range) bool {
	if n == nil || n.str("filename") != r.Filename {
		return false
	}
	s, e := n.get("start"), n.get("end")
	return s != nil && e != nil && s.isPos(r.Start) && e.isPos(r.End)
}

func (n *node) isPos(p hcl.Pos) bool {
	return n.num("line") == p.Line && n.num("column") == p.Column && n.num("byte") == p.Byte
}
