package hjson

import (
	"math/big"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

type refResult struct {
	val  cty.Value
	errs int
	vars []string
}

func travStr(tr hcl.Traversal) string {
	s := ""
	for _, st := range tr {
		switch st := st.(type) {
		case hcl.TraverseRoot:
			s += st.Name
		case hcl.TraverseAttr:
			s += "." + st.Name
		case hcl.TraverseIndex:
			s += "[" + lib.Show(st.Key) + "]"
		default:
			s += "?"
		}
	}
	return s
}

func travStrs(trs []hcl.Traversal) []string {
	var out []string
	for _, tr := range trs {
		out = append(out, travStr(tr))
	}
	return out
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// refString is the meaning of a string.
func refString(text string, ctx *hcl.EvalContext, r *refResult) cty.Value {
	e, diags := hclsyntax.ParseTemplate([]byte(text), "ref", lib.Start)
	if !diags.HasErrors() {
		r.vars = append(r.vars, travStrs(e.Variables())...)
	}
	if ctx == nil {
		return cty.StringVal(text)
	}
	if diags.HasErrors() {
		r.errs++
		return cty.DynamicVal
	}
	v, diags := e.Value(ctx)
	if diags.HasErrors() {
		r.errs++
	}
	return v
}

// refEval is the meaning of a JSON value as an expression.
func refEval(n *lib.JNode, ctx *hcl.EvalContext, r *refResult) cty.Value {
	switch n.Kind {
	case '0':
		return cty.NullVal(cty.DynamicPseudoType)
	case 't':
		return cty.True
	case 'f':
		return cty.False
	case 'n':
		f, _, err := big.ParseFloat(n.Text, 10, 512, big.ToNearestEven)
		sym.Assert(err == nil, "reference number")
		return cty.NumberVal(f)
	case 's':
		return refString(n.Text, ctx, r)
	case '[':
		var vs []cty.Value
		for _, e := range n.Elems {
			vs = append(vs, refEval(e, ctx, r))
		}
		return cty.TupleVal(vs)
	}
	attrs := map[string]cty.Value{}
	known := true
	for i, e := range n.Elems {
		name := refString(n.Names[i], ctx, r)
		v := refEval(e, ctx, r)
		name, err := convert.Convert(name, cty.String)
		if err != nil || name.IsNull() {
			r.errs++
			continue
		}
		if !name.IsKnown() {
			known = false
			continue
		}
		if _, dup := attrs[name.AsString()]; dup {
			r.errs++
			continue
		}
		attrs[name.AsString()] = v
	}
	if !known {
		return cty.DynamicVal
	}
	return cty.ObjectVal(attrs)
}

func evaluate(src []byte) {
	sym.ObserveBytes("src", src)
	n := lib.RefJSON(src)
	if n == nil {
		return
	}
	f, diags := json.Parse(src, "t.json")
	sym.Assert(!diags.HasErrors(), "the document is valid")
	attrs, _ := f.Body.JustAttributes()
	a := attrs["v"]
	if a == nil {
		sym.Fail("the attribute is present")
		return
	}
	checkExpr(a.Expr, n.Elems[0])
}

func checkExpr(e hcl.Expression, n *lib.JNode) {
	lit := &refResult{}
	lit.val = refEval(n, nil, lit)
	v, d := e.Value(nil)
	sym.Assert(d.HasErrors() == (lit.errs > 0), "literal: errors exactly for duplicate names")
	if lit.errs == 0 {
		sym.Assert(v.RawEquals(lit.val), "literal: exactly the data")
	}
	sym.Assert(sameStrs(travStrs(e.Variables()), lit.vars), "variables of all templates")

	ctx := lib.Ctx()
	ref := &refResult{}
	ref.val = refEval(n, ctx, ref)
	v, d = e.Value(ctx)
	sym.ObserveStr("value", lib.Show(v))
	sym.Assert(d.HasErrors() == (ref.errs > 0), "errors exactly when a template has errors")
	if ref.errs == 0 {
		sym.Cover("evaluated")
		sym.Assert(v.RawEquals(ref.val), "templates are evaluated like native ones")
	}

	list, d := hcl.ExprList(e)
	sym.Assert(d.HasErrors() == (n.Kind != '['), "static list exactly for arrays")
	if n.Kind == '[' {
		sym.Assert(len(list) == len(n.Elems), "static list has every element")
	}
	pairs, d := hcl.ExprMap(e)
	sym.Assert(d.HasErrors() == (n.Kind != '{'), "static map exactly for objects")
	if n.Kind == '{' {
		sym.Assert(len(pairs) == len(n.Elems), "static map has every property")
		for i, p := range pairs {
			if i < len(n.Elems) {
				k, _ := p.Key.Value(nil)
				sym.Assert(k.RawEquals(cty.StringVal(n.Names[i])), "static map has the names in order")
			}
		}
	}
	tr, d := hcl.AbsTraversalForExpr(e)
	call, cd := hcl.ExprCall(e)
	if n.Kind != 's' {
		sym.Assert(d.HasErrors() && cd.HasErrors(), "only a string is a traversal or a call")
	} else {
		want, wd := hclsyntax.ParseTraversalAbs([]byte(n.Text), "ref", lib.Start)
		sym.Assert(d.HasErrors() == wd.HasErrors(), "a string with traversal syntax is a traversal")
		if !wd.HasErrors() {
			sym.Cover("traversal")
			sym.Assert(travStr(tr) == travStr(want), "the traversal of the string")
		}
		ne, nd := hclsyntax.ParseExpression([]byte(n.Text), "ref", lib.Start)
		var wc *hcl.StaticCall
		if !nd.HasErrors() {
			wc, nd = hcl.ExprCall(ne)
		}
		sym.Assert(cd.HasErrors() == nd.HasErrors(), "a string with call syntax is a call")
		if !nd.HasErrors() {
			sym.Cover("call")
			sym.Assert(call.Name == wc.Name && len(call.Arguments) == len(wc.Arguments), "the call of the string")
		}
	}
}

const tmplAlpha = "${}%ax\"\\n\n.~ "

var tmplFrames = [][2]string{
	{"", ""},
	{"$", "}"},
	{"${", "}"},
	{"x${a", "}"},
	{"%{if b}", "%{endif}"},
	{"${l[", "]}"},
	{"f(", ")"},
	{"$$", "{"},
	{"${u}", "${a}"},
}

// Text: any string as a value or as a name.
func Text() {
	fr := tmplFrames[sym.Choice(len(tmplFrames))]
	txt := fr[0] + string(sym.BytesIn(tmplAlpha, sym.Param("n", 2))) + fr[1]
	switch sym.Choice(3) {
	case 0:
		evaluate([]byte("{\"v\":\"" + txt + "\"}"))
	case 1:
		evaluate([]byte("{\"v\":{\"" + txt + "\":\"${a}\"}}"))
	default:
		evaluate([]byte("{\"v\":[\"" + txt + "\",\"${o.b}\"]}"))
	}
}

var strs = []string{"x", "${a}", "${u}", "${zz}", "${n}", "q${i}", "a", "${i}", "${l}", "%{if", "", "${d}", "$${a}", "é"}

func str() string {
	k := sym.Choice(sym.Param("s", len(strs)))
	return "\"" + strs[k] + "\""
}

func genVal(left *int) string {
	*left--
	switch sym.Choice(6) {
	case 0:
		s := "{"
		for i := 0; *left > 0 && sym.Choice(2) == 1; i++ {
			if i > 0 {
				s += ","
			}
			s += str() + ": " + genVal(left)
		}
		return s + "}"
	case 1:
		s := "["
		for i := 0; *left > 0 && sym.Choice(2) == 1; i++ {
			if i > 0 {
				s += ","
			}
			s += genVal(left)
		}
		return s + "]"
	case 2:
		return "null"
	case 3:
		return "true"
	case 4:
		return nums[sym.Choice(len(nums))]
	}
	return str()
}

var nums = []string{"-1", "1.5e3"}

// Trees: nested values.
func Trees() {
	left := sym.Param("n", 3)
	evaluate([]byte("{\"v\":" + genVal(&left) + "}"))
}

// Names: two properties with free names in one object.
func Names() {
	k := sym.Param("k", 2)
	m := string(sym.BytesIn("ax${}i", k))
	o := string(sym.BytesIn("ax${}i", sym.Param("j", 1)))
	fr := [][2]string{{"", ""}, {"${", "}"}}[sym.Choice(2)]
	evaluate([]byte("{\"v\":{\"" + fr[0] + m + fr[1] + "\":1,\"" + o + "\":[null]}}"))
}

// Pairs: two properties whose names and values are templates.
func Pairs() {
	s := "{\"v\":{"
	for i := 0; i < 2; i++ {
		if i > 0 {
			s += ","
		}
		s += str() + ": " + "\"" + strs[sym.Choice(sym.Param("values", 4))] + "\""
	}
	evaluate([]byte(s + "}}"))
}

var numAlpha = "-+.eE019"

// Numbers: any number.
func Numbers() {
	s := sym.BytesIn(numAlpha, sym.Param("n", 4))
	for i := range s {
		s[i] = byte(sym.Concrete(int(s[i])))
	}
	evaluate([]byte("{\"v\":" + string(s) + "}"))
}
