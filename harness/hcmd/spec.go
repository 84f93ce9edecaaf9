// Package hcmd holds the harnesses about the hcldec command.
package hcmd

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/hcmd/spectool"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"
)

var types = []struct {
	text string
	ty   cty.Type
}{
	{"string", cty.String},
	{"number", cty.Number},
	{"list(number)", cty.List(cty.Number)},
	{"any", cty.DynamicPseudoType},
	{"bool", cty.Bool},
	{"set(string)", cty.Set(cty.String)},
	{"map(bool)", cty.Map(cty.Bool)},
	{"tuple([string, list(number)])", cty.Tuple([]cty.Type{cty.String, cty.List(cty.Number)})},
	{"object({x = string, y = number})", cty.Object(map[string]cty.Type{"x": cty.String, "y": cty.Number})},
	{"tuple([])", cty.EmptyTuple},
	{"object({})", cty.EmptyObject},
}

var results = []string{"nested", "[nested]", "upper(\"${nested}x\")", "nested == null ? 1 : 2"}

var funcs = map[string]function.Function{"upper": stdlib.UpperFunc}

type gen struct {
	src  []byte
	left int
	errs int // how many mistakes may still be made
	bad  bool
	anys bool // the type any is allowed
	// anyAttrs counts the attributes that accept any type; anyInMap tells
	// that a map has one, which is not allowed. open tells that it is not
	// settled whether a map is acceptable: its elements may differ in type.
	anyAttrs       int
	anyInMap, open bool
	few            bool // only few variants of what is not wrong
}

func (g *gen) put(ss ...string) {
	for _, s := range ss {
		g.src = append(g.src, s...)
	}
}

// wrong decides whether to make a mistake here.
func (g *gen) wrong() bool {
	if g.errs > 0 && sym.Bool() {
		g.errs--
		g.bad = true
		return true
	}
	return false
}

// name writes the argument that names the item of the input; label is the
// name that is used without it.
func (g *gen) name(arg, label string) string {
	if label == "" && g.wrong() {
		return "a"
	}
	if label != "" && sym.Bool() {
		return label
	}
	n := "a"
	if !g.few {
		n = string([]byte{sym.ByteIn("ab")})
	}
	g.put(arg, " = \"", n, "\"\n")
	return n
}

func (g *gen) pick(n int) int {
	if g.few {
		return 0
	}
	return sym.Choice(n)
}

func (g *gen) required() bool {
	if g.few {
		return false
	}
	switch sym.Choice(3) {
	case 1:
		g.put("required = false\n")
	case 2:
		g.put("required = true\n")
		return true
	}
	return false
}

func (g *gen) typ(arg string) cty.Type {
	if g.wrong() {
		g.put(arg, " = ", []string{"\"string\"", "text", "list", "1"}[sym.Choice(4)], "\n")
		return cty.String
	}
	n := 3
	if g.anys {
		n = 4
	}
	if g.few {
		n = 1
	}
	t := types[sym.Choice(n)]
	g.put(arg, " = ", t.text, "\n")
	return t.ty
}

func (g *gen) count(arg string) int {
	if g.few {
		return 0
	}
	if n := sym.Choice(3); n > 0 {
		g.put(arg, " = ", string([]byte{byte('0' + n)}), "\n")
		return n
	}
	return 0
}

// one writes the single specification inside another one.
func (g *gen) one(depth int) hcldec.Spec {
	n := 1
	if g.wrong() {
		n = 2 * sym.Choice(2)
	}
	var s hcldec.Spec
	for i := 0; i < n; i++ {
		s = g.spec(depth-1, "", false)
	}
	return s
}

const leaves = 3

// spec writes a specification and gives what it stands for.
func (g *gen) spec(depth int, label string, labelled bool) hcldec.Spec {
	g.left--
	kinds := []string{"attr", "literal", "block_attrs", "object", "array", "block", "block_list", "block_set", "block_map", "default", "transform"}
	n := leaves
	if depth > 0 && g.left > 0 {
		n = len(kinds)
	}
	kind := kinds[sym.Choice(n)]
	g.put(kind)
	if labelled && !g.wrong() {
		g.put(" \"", label, "\"")
	} else if !labelled && g.wrong() {
		g.put(" \"z\"")
	}
	g.put(" {\n")
	s := g.inside(kind, depth, label)
	if g.wrong() {
		g.put([]string{"bogus = 1\n", "bogus {\n}\n"}[sym.Choice(2)])
	}
	g.put("}\n")
	return s
}

func (g *gen) inside(kind string, depth int, label string) hcldec.Spec {
	switch kind {
	case "attr":
		s := &hcldec.AttrSpec{Name: g.name("name", label), Required: g.required(), Type: cty.DynamicPseudoType}
		if !g.anys || sym.Bool() {
			s.Type = g.typ("type")
		}
		if s.Type == cty.DynamicPseudoType {
			g.anyAttrs++
		}
		return s
	case "literal":
		v := []string{"1", "upper(\"x\")", "null", "[true]"}[g.pick(4)]
		if !g.wrong() {
			g.put("value = ", v, "\n")
		}
		return &hcldec.LiteralSpec{Value: value(v)}
	case "block_attrs":
		return &hcldec.BlockAttrsSpec{TypeName: g.name("block_type", label), Required: g.required(), ElementType: g.typ("element_type")}
	case "object":
		s := hcldec.ObjectSpec{}
		for _, l := range []string{"b", "c"} {
			if g.left > 0 && sym.Bool() {
				s[l] = g.spec(depth-1, l, true)
			}
		}
		return s
	case "array":
		s := hcldec.TupleSpec{}
		for i := 0; i < 2 && g.left > 0 && sym.Bool(); i++ {
			s = append(s, g.spec(depth-1, "", false))
		}
		return s
	case "block":
		return &hcldec.BlockSpec{TypeName: g.name("block_type", label), Required: g.required(), Nested: g.one(depth)}
	case "block_list":
		old := g.anys
		g.anys = false
		s := &hcldec.BlockListSpec{TypeName: g.name("block_type", label), MinItems: g.count("min_items"), MaxItems: g.count("max_items"), Nested: g.one(depth)}
		g.anys = old
		return s
	case "block_set":
		old := g.anys
		g.anys = false
		s := &hcldec.BlockSetSpec{TypeName: g.name("block_type", label), MinItems: g.count("min_items"), MaxItems: g.count("max_items"), Nested: g.one(depth)}
		g.anys = old
		return s
	case "block_map":
		s := &hcldec.BlockMapSpec{TypeName: g.name("block_type", label)}
		if g.wrong() {
			g.put([]string{"", "labels = []\n", "labels = 1\n"}[sym.Choice(3)])
		} else {
			s.LabelNames = [][]string{{"l"}, {"l", "m"}}[g.pick(2)]
			g.put([]string{"", "labels = [\"l\"]\n", "labels = [\"l\", \"m\"]\n"}[len(s.LabelNames)])
		}
		old := g.anyAttrs
		s.Nested = g.one(depth)
		if g.anyAttrs > old {
			g.anyInMap = true
		} else if !g.bad && dynamic(hcldec.ImpliedType(s.Nested)) {
			g.open = true
		}
		return s
	case "default":
		if g.wrong() {
			return nil
		}
		s := g.spec(depth-1, "", false)
		for i := 0; i < 2 && g.left > 0 && sym.Bool(); i++ {
			s = &hcldec.DefaultSpec{Primary: s, Default: g.spec(depth-1, "", false)}
		}
		return s
	default:
		r := results[g.pick(len(results))]
		g.put("result = ", r, "\n")
		e, d := hclsyntax.ParseExpression([]byte(r), "", lib.Start)
		sym.Assert(!d.HasErrors(), "the result expression is valid")
		return &hcldec.TransformExprSpec{Wrapped: g.one(depth), Expr: e, VarName: "nested", TransformCtx: &hcl.EvalContext{Functions: funcs}}
	}
}

func value(text string) cty.Value {
	e, d := hclsyntax.ParseExpression([]byte(text), "", lib.Start)
	sym.Assert(!d.HasErrors(), "the literal is valid")
	v, d := e.Value(&hcl.EvalContext{Functions: funcs})
	sym.Assert(!d.HasErrors(), "the literal has a value")
	return v
}

// dynamic tells whether a type leaves something open.
func dynamic(t cty.Type) bool {
	if t.IsCollectionType() {
		return dynamic(t.ElementType())
	}
	if t.IsObjectType() {
		for _, a := range t.AttributeTypes() {
			if dynamic(a) {
				return true
			}
		}
	}
	if t.IsTupleType() {
		for _, e := range t.TupleElementTypes() {
			if dynamic(e) {
				return true
			}
		}
	}
	return t.HasDynamicTypes()
}

// Specs: a specification file means what its blocks describe.
func Specs() {
	g := &gen{left: sym.Param("n", 2), errs: sym.Param("bad", 0), anys: true, few: sym.Param("bad", 0) > 0}
	want := g.spec(sym.Param("depth", 2), "", false)
	if g.wrong() {
		g.spec(0, "", false)
	}
	sym.ObserveBytes("spec", g.src)
	f, d := hclsyntax.ParseConfig(g.src, "spec", lib.Start)
	sym.Assert(!d.HasErrors(), "the specification is valid syntax")
	c, d := spectool.Load(f)
	sym.Assert(c.RootSpec != nil, "a specification is returned")
	if g.open || g.anyInMap && !g.bad { // see AnyInMap
		return
	}
	sym.Assert(d.HasErrors() == g.bad, "exactly a wrong specification is reported")
	if g.bad || sym.Param("bad", 0) > 0 {
		return
	}
	sym.Assert(hcldec.ImpliedType(c.RootSpec).Equals(hcldec.ImpliedType(want)), "the type of the results")
	b := &lib.GenBody{Names: "abc", Left: sym.Param("items", 2), MaxLabels: sym.Param("labels", 1), Expr: func() string {
		return []string{"1", "\"x\"", "null"}[sym.Choice(3)]
	}}
	b.Body(1)
	sym.ObserveBytes("input", b.Src)
	in, d := hclsyntax.ParseConfig(b.Src, "t.hcl", lib.Start)
	sym.Assert(!d.HasErrors(), "the input is valid")
	gotV, gotD := hcldec.Decode(in.Body, c.RootSpec, nil)
	wantV, wantD := hcldec.Decode(in.Body, want, nil)
	sym.Assert(gotD.HasErrors() == wantD.HasErrors(), "the input is accepted alike")
	if !wantD.HasErrors() {
		sym.ObserveStr("value", lib.Show(gotV))
		sym.Assert(gotV.RawEquals(wantV), "the value described")
		sym.Cover("decoded")
	}
}

// AnyInMap: the elements of a map must have one type.
func AnyInMap() {
	src := []byte("block_map {\nblock_type = \"b\"\nlabels = [\"l\"]\nattr {\nname = \"a\"\ntype = any\n}\n}\n")
	src[len(src)-5] = sym.ByteIn(" \n")
	f, _ := hclsyntax.ParseConfig(src, "spec", lib.Start)
	_, d := spectool.Load(f)
	sym.Assert(d.HasErrors(), "attributes of type any inside a block_map are reported")
}

// Types: the type expressions of specifications.
func Types() {
	t := types[sym.Choice(len(types))]
	text, ty := t.text, t.ty
	switch sym.Choice(5) {
	case 1:
		text, ty = "list("+text+")", cty.List(ty)
	case 2:
		text, ty = "set("+text+")", cty.Set(ty)
	case 3:
		text, ty = "map("+text+")", cty.Map(ty)
	case 4:
		u := types[sym.Choice(len(types))]
		text, ty = "object({p = "+text+", q = "+u.text+"})", cty.Object(map[string]cty.Type{"p": ty, "q": u.ty})
	}
	c := load("attr {\n name = \"a\"\n type = " + text + "\n}\n")
	sym.Assert(hcldec.ImpliedType(c.RootSpec).Equals(ty), "the type the expression describes")
}

func load(src string) (c struct {
	Variables map[string]cty.Value
	Functions map[string]function.Function
	RootSpec  hcldec.Spec
}) {
	sym.ObserveStr("spec", src)
	f, d := hclsyntax.ParseConfig([]byte(src), "spec", lib.Start)
	sym.Assert(!d.HasErrors(), "the specification is valid syntax")
	r, d := spectool.Load(f)
	sym.Assert(!d.HasErrors(), "a right specification is accepted")
	c.Variables, c.Functions, c.RootSpec = r.Variables, r.Functions, r.RootSpec
	return c
}

// Decls: variables, functions and the functions of specifications.
func Decls() {
	k := string([]byte{sym.ByteIn("129")})
	num := func(i int64) cty.Value { return cty.NumberIntVal(i) }
	kv := num(int64(k[0] - '0'))
	str := cty.StringVal
	big := num(2)
	if k[0] == '9' {
		big = kv
	}
	small := num(2)
	if k[0] == '1' {
		small = kv
	}
	t := []struct {
		text string
		want cty.Value
	}{
		{"abs(-" + k + ")", kv},
		{"coalesce(null, " + k + ")", kv},
		{"concat([1], [" + k + "])", cty.TupleVal([]cty.Value{num(1), kv})},
		{"hasindex([5, 6], " + k + ")", cty.BoolVal(k[0] < '2')},
		{"int(" + k + ".7)", kv},
		{"jsondecode(\"[" + k + "]\")", cty.TupleVal([]cty.Value{kv})},
		{"jsonencode([" + k + "])", str("[" + k + "]")},
		{"length([" + k + ", 1])", num(2)},
		{"lower(\"A" + k + "\")", str("a" + k)},
		{"max(" + k + ", 2)", big},
		{"min(" + k + ", 2)", small},
		{"reverse(\"a" + k + "\")", str(k + "a")},
		{"strlen(\"ab" + k + "\")", num(3)},
		{"substr(\"ab" + k + "\", 1, 2)", str("b" + k)},
		{"upper(\"a" + k + "\")", str("A" + k)},
	}[sym.Choice(15)]
	where := sym.Choice(4)
	src := ""
	switch where {
	case 0:
		src = "literal {\n value = " + t.text + "\n}\n"
	case 1:
		src = "transform {\n result = " + t.text + "\n literal {\n  value = 1\n }\n}\n"
	case 2:
		src = "variables {\n v = " + t.text + "\n w = 5\n}\nliteral {\n value = 1\n}\n"
	case 3:
		src = "function \"f\" {\n params = [x]\n result = " + t.text + "\n}\nliteral {\n value = 1\n}\n"
	}
	c := load(src)
	v, d := hcldec.Decode(hcl.EmptyBody(), c.RootSpec, nil)
	sym.Assert(!d.HasErrors(), "the specification has a value")
	switch where {
	case 2:
		sym.Assert(len(c.Variables) == 2 && c.Variables["w"].RawEquals(num(5)), "exactly the variables defined")
		v = c.Variables["v"]
	case 3:
		sym.Assert(len(c.Functions) == 1, "exactly the functions defined")
		r, err := c.Functions["f"].Call([]cty.Value{num(0)})
		sym.Assert(err == nil, "the function can be called")
		v = r
	}
	sym.ObserveStr("value", lib.Show(v))
	sym.Assert(v.RawEquals(t.want), "the functions of specifications")
}
