package hwrite

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// str is a string value of n symbolic characters.
func str(n int) string {
	switch sym.Param("set", 0) {
	case 1:
		return string(sym.BytesIn("$%{}\"\\~a\n", n))
	case 2: // characters of two bytes
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, 0xc2+byte(sym.Choice(3)), sym.ByteIn("\x80\x85\xa0\xa9\xad\xbf"))
		}
		return string(b)
	case 3: // characters of three and four bytes
		s := ""
		for i := 0; i < n; i++ {
			s += wide[sym.Choice(len(wide))]
		}
		return s
	}
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

// wide are printable and unprintable characters of three and four bytes.
var wide = []string{"a", "0", "\u2028", "\u200b", "\u4e00", "\ue000", "\ufeff", "\uffff", "\U0001f600", "\U000e0001", "\U00100000", "\U0010ffff", "\U0001d173"}

var numbers = []string{"0", "1", "-1", "15", "-0.5", "0.1", "3.14159", "1e3", "100000000000000000000000000000000000000000001", "1e-7", "123456789.000000000000000000001"}

func num() cty.Value {
	v, err := cty.ParseNumberVal(numbers[sym.Choice(len(numbers))])
	sym.Assert(err == nil, "number")
	return v
}

func leaf() cty.Value {
	switch sym.Choice(6) {
	case 0:
		return cty.StringVal(string(sym.BytesIn("$%{\"\\a\n", sym.Param("n", 1))))
	case 1:
		return num()
	case 2:
		return cty.BoolVal(sym.Bool())
	case 3:
		return cty.NullVal(cty.String)
	case 4:
		return cty.EmptyTupleVal
	}
	return cty.EmptyObjectVal
}

// key is the key of an object or map.
func key() string {
	switch sym.Choice(8) {
	case 0:
		return ""
	case 1:
		return "null"
	case 2:
		return "true"
	case 3:
		return "for"
	case 4:
		return "1"
	case 5:
		return "a.b"
	case 6:
		return "in"
	}
	return string(sym.BytesIn("ab-_1$%{\"\\ \n.=", 2))
}

// value is a value of a depth.
func value(depth int) cty.Value {
	if depth == 0 {
		return leaf()
	}
	switch sym.Choice(7) {
	case 0:
		return leaf()
	case 1:
		return cty.TupleVal([]cty.Value{value(depth - 1)})
	case 2:
		return cty.TupleVal([]cty.Value{lib.NumC(-2, 2), value(depth - 1)})
	case 3:
		return cty.ListVal([]cty.Value{value(depth - 1)})
	case 4:
		return cty.ObjectVal(map[string]cty.Value{key(): value(depth - 1)})
	case 5:
		return cty.ObjectVal(map[string]cty.Value{"m": lib.NumC(0, 1), key(): value(depth - 1)})
	}
	if sym.Choice(2) == 0 {
		return cty.SetVal([]cty.Value{value(depth - 1)})
	}
	return cty.MapVal(map[string]cty.Value{key(): value(depth - 1)})
}

// plain is the value in the kinds the syntax can express.
func plain(v cty.Value) cty.Value {
	ty := v.Type()
	switch {
	case v.IsNull():
		return cty.NullVal(cty.DynamicPseudoType)
	case ty.IsListType() || ty.IsSetType() || ty.IsTupleType():
		var vs []cty.Value
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			vs = append(vs, plain(e))
		}
		return cty.TupleVal(vs)
	case ty.IsMapType() || ty.IsObjectType():
		vs := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			vs[k.AsString()] = plain(e)
		}
		return cty.ObjectVal(vs)
	}
	return v
}

// back asserts that source evaluates to a value.
func back(src []byte, want cty.Value, what string) {
	expr, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), what+": the generated text is valid")
	if diags.HasErrors() {
		return
	}
	v, diags := expr.Value(nil)
	sym.Assert(!diags.HasErrors(), what+": the generated text evaluates")
	if diags.HasErrors() {
		return
	}
	sym.ObserveStr("v", lib.Show(v))
	sym.Assert(v.RawEquals(want), what+": it gives the value")
}

func generated(v cty.Value) {
	sym.ObserveStr("val", lib.Show(v))
	toks := hclwrite.TokensForValue(v)
	src := toks.Bytes()
	sym.ObserveBytes("src", src)
	want := plain(v)
	back(src, want, "tokens")
	if v.Type() == cty.String || v.Type().IsObjectType() {
		f := hclwrite.NewEmptyFile()
		f.Body().SetAttributeValue("x", v)
		file, diags := hclsyntax.ParseConfig(f.Bytes(), "t.hcl", lib.Start)
		sym.Assert(!diags.HasErrors(), "attribute: the generated text is valid")
		if diags.HasErrors() {
			return
		}
		a := file.Body.(*hclsyntax.Body).Attributes["x"]
		sym.Assert(a != nil, "attribute: the attribute is there")
		if a != nil {
			got, diags := a.Expr.Value(nil)
			sym.Assert(!diags.HasErrors() && got.RawEquals(want), "attribute: it gives the value")
		}
	}
	sym.Cover("back")
}

// Strings: generated strings.
func Strings() { generated(cty.StringVal(str(sym.Param("n", 2)))) }

// Values: generated values.
func Values() { generated(value(sym.Param("depth", 1))) }

// Labels: generated block labels.
func Labels() {
	s := str(sym.Param("n", 2))
	b := hclwrite.NewBlock("b", []string{"x", s})
	f := hclwrite.NewEmptyFile()
	f.Body().AppendBlock(b)
	src := f.Bytes()
	sym.ObserveBytes("src", src)
	file, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the generated block is valid")
	if diags.HasErrors() {
		return
	}
	bs := file.Body.(*hclsyntax.Body).Blocks
	sym.Assert(len(bs) == 1 && bs[0].Type == "b" && len(bs[0].Labels) == 2, "one block with its labels")
	if len(bs) == 1 && len(bs[0].Labels) == 2 {
		sym.Assert(bs[0].Labels[0] == "x" && bs[0].Labels[1] == s, "labels")
		sym.Cover("labels")
	}
}

func name() string {
	switch sym.Choice(5) {
	case 0:
		return "for"
	case 1:
		return "null"
	case 2:
		return "in"
	}
	s := string(append(sym.BytesIn("abz_", 1), sym.BytesIn("a-_1", 1)...))
	return s
}

// traversal is a traversal of at most n steps after its root.
func traversal(n int) hcl.Traversal {
	t := hcl.Traversal{hcl.TraverseRoot{Name: []string{"a", "r-1", "in"}[sym.Choice(3)]}}
	for i := 0; i < n; i++ {
		switch sym.Choice(4) {
		case 0:
			return t
		case 1:
			t = append(t, hcl.TraverseAttr{Name: name()})
		case 2:
			t = append(t, hcl.TraverseIndex{Key: cty.StringVal(string(sym.BytesIn("$%{\"\\a\n]", sym.Param("w", 1))))})
		case 3:
			t = append(t, hcl.TraverseIndex{Key: []cty.Value{lib.NumC(0, 12), cty.NumberFloatVal(0.5), cty.NumberIntVal(1 << 40)}[sym.Choice(3)]})
		}
	}
	return t
}

func sameTraversal(a, b hcl.Traversal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case hcl.TraverseRoot:
			y, ok := b[i].(hcl.TraverseRoot)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseAttr:
			y, ok := b[i].(hcl.TraverseAttr)
			if !ok || x.Name != y.Name {
				return false
			}
		case hcl.TraverseIndex:
			y, ok := b[i].(hcl.TraverseIndex)
			if !ok || !x.Key.RawEquals(y.Key) {
				return false
			}
		}
	}
	return true
}

// Traversals: generated traversals.
func Traversals() {
	t := traversal(sym.Param("n", 2))
	toks := hclwrite.TokensForTraversal(t)
	src := toks.Bytes()
	sym.ObserveBytes("src", src)
	got, diags := hclsyntax.ParseTraversalAbs(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the generated traversal is valid")
	if !diags.HasErrors() {
		sym.Assert(sameTraversal(t, got), "it parses back to the traversal")
		sym.Cover("back")
	}
	rel := hclwrite.TokensForTraversal(t[1:])
	if len(rel) > 0 {
		root := t[0].(hcl.TraverseRoot).Name
		src := append([]byte(root), rel.Bytes()...)
		got, diags := hclsyntax.ParseTraversalAbs(src, "t.hcl", lib.Start)
		sym.Assert(!diags.HasErrors() && sameTraversal(t, got), "a relative traversal follows its root")
	}

	f := hclwrite.NewEmptyFile()
	f.Body().SetAttributeTraversal("x", t)
	src = f.Bytes()
	sym.ObserveBytes("file", src)
	file, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "attribute: the generated text is valid")
	if diags.HasErrors() {
		return
	}
	a := file.Body.(*hclsyntax.Body).Attributes["x"]
	sym.Assert(a != nil, "attribute: the attribute is there")
	if a == nil {
		return
	}
	at, diags := hcl.AbsTraversalForExpr(a.Expr)
	sym.Assert(!diags.HasErrors() && sameTraversal(t, at), "attribute: it is the traversal")
}
