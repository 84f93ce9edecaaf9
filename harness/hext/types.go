// Package hext holds the harnesses about the extensions.
package hext

import (
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// anyType chooses a type of at most the given depth.
func anyType(depth int, names []string) cty.Type {
	n := 4
	if depth > 0 {
		n = 9
	}
	switch sym.Choice(n) {
	case 0:
		return cty.String
	case 1:
		return cty.Bool
	case 2:
		return cty.Number
	case 3:
		return cty.DynamicPseudoType
	case 4:
		return cty.List(anyType(depth-1, names))
	case 5:
		return cty.Set(anyType(depth-1, names))
	case 6:
		return cty.Map(anyType(depth-1, names))
	case 7:
		var ts []cty.Type
		for i := sym.Choice(sym.Param("elems", 2) + 1); i > 0; i-- {
			ts = append(ts, anyType(depth-1, names))
		}
		return cty.Tuple(ts)
	}
	ts := map[string]cty.Type{}
	for i := sym.Choice(sym.Param("elems", 2) + 1); i > 0; i-- {
		name := ""
		if k := sym.Choice(len(names) + 1); k < len(names) {
			name = names[k]
		} else {
			name = string([]byte{sym.ByteIn("bz_"), sym.ByteIn("a-9_")})
		}
		_, dup := ts[name]
		sym.Assume(!dup)
		ts[name] = anyType(depth-1, names)
	}
	return cty.Object(ts)
}

func hasAny(t cty.Type) bool {
	switch {
	case t == cty.DynamicPseudoType:
		return true
	case t.IsCollectionType():
		return hasAny(t.ElementType())
	case t.IsTupleType():
		for _, e := range t.TupleElementTypes() {
			if hasAny(e) {
				return true
			}
		}
	case t.IsObjectType():
		for _, e := range t.AttributeTypes() {
			if hasAny(e) {
				return true
			}
		}
	}
	return false
}

// RoundTrip: any type rendered and parsed again, in both syntaxes.
func RoundTrip() {
	names := []string{"a", "for", "null", "if", "a-b", "_x"}
	ty := anyType(sym.Param("depth", 2), names)
	s := typeexpr.TypeString(ty)
	sym.ObserveStr("text", s)
	back := func(e hcl.Expression, what string) {
		got, diags := typeexpr.TypeConstraint(e)
		sym.Assert(!diags.HasErrors(), what+": a rendered type is valid")
		sym.Assert(got.Equals(ty), what+": a rendered type is the type")
		exact, diags := typeexpr.Type(e)
		sym.Assert(diags.HasErrors() == hasAny(ty), what+": any is refused exactly where an exact type is required")
		sym.Assert(diags.HasErrors() || exact.Equals(ty), what+": a rendered type is the exact type")
	}
	e, diags := hclsyntax.ParseExpression([]byte(s), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a rendered type is an expression")
	if diags.HasErrors() {
		return
	}
	back(e, "native")
	f, diags := json.Parse([]byte(`{"x":"`+s+`"}`), "t.json")
	sym.Assert(!diags.HasErrors(), "a rendered type is a JSON string")
	as, _ := f.Body.JustAttributes()
	back(as["x"].Expr, "JSON")
	if ty.IsObjectType() {
		sym.Cover("object")
	}
}

// refType is the definition of type expressions.
func refType(e hcl.Expression, any bool) (cty.Type, bool, bool) {
	switch e := e.(type) {
	case *hclsyntax.ScopeTraversalExpr:
		if len(e.Traversal) != 1 {
			return cty.NilType, false, false
		}
		switch e.Traversal.RootName() {
		case "string":
			return cty.String, true, false
		case "bool":
			return cty.Bool, true, false
		case "number":
			return cty.Number, true, false
		case "any":
			return cty.DynamicPseudoType, any, false
		}
	case *hclsyntax.FunctionCallExpr:
		if len(e.Args) != 1 || e.ExpandFinal {
			return cty.NilType, false, false
		}
		switch e.Name {
		case "list", "set", "map":
			t, ok, dup := refType(e.Args[0], any)
			if !ok {
				return cty.NilType, false, dup
			}
			switch e.Name {
			case "list":
				return cty.List(t), true, dup
			case "set":
				return cty.Set(t), true, dup
			}
			return cty.Map(t), true, dup
		case "tuple":
			l, ok := e.Args[0].(*hclsyntax.TupleConsExpr)
			if !ok {
				return cty.NilType, false, false
			}
			var ts []cty.Type
			some := false
			for _, x := range l.Exprs {
				t, ok, dup := refType(x, any)
				if !ok {
					return cty.NilType, false, false
				}
				some = some || dup
				ts = append(ts, t)
			}
			return cty.Tuple(ts), true, some
		case "object":
			o, ok := e.Args[0].(*hclsyntax.ObjectConsExpr)
			if !ok {
				return cty.NilType, false, false
			}
			ts := map[string]cty.Type{}
			some := false
			for _, it := range o.Items {
				name, ok := keyName(it.KeyExpr)
				if !ok {
					return cty.NilType, false, false
				}
				t, ok, dup := refType(it.ValueExpr, any)
				if !ok {
					return cty.NilType, false, false
				}
				_, has := ts[name]
				some = some || dup || has
				ts[name] = t
			}
			return cty.Object(ts), true, some
		}
	}
	return cty.NilType, false, false
}

func keyName(e hclsyntax.Expression) (string, bool) {
	if k, ok := e.(*hclsyntax.ObjectConsKeyExpr); ok {
		e = k.Wrapped
	}
	switch e := e.(type) {
	case *hclsyntax.ScopeTraversalExpr:
		return e.Traversal.RootName(), len(e.Traversal) == 1
	case *hclsyntax.LiteralValueExpr:
		switch {
		case e.Val.IsNull():
			return "null", true
		case e.Val.RawEquals(cty.True):
			return "true", true
		case e.Val.RawEquals(cty.False):
			return "false", true
		}
	}
	return "", false
}

func reads(src []byte) {
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	if diags.HasErrors() {
		// still no panic
		if e != nil {
			typeexpr.TypeConstraint(e)
		}
		return
	}
	sym.Cover("expression")
	got, diags := typeexpr.TypeConstraint(e)
	want, ok, dup := refType(e, true)
	if !dup {
		sym.Assert(diags.HasErrors() == !ok, "exactly type specifications are accepted")
		sym.Assert(!ok || diags.HasErrors() || got.Equals(want), "the type is the one specified")
	}
	for _, d := range diags {
		sym.Assert(d.Subject != nil, "an error has a subject")
		lib.RangeOK(src, *d.Subject, "error subject")
	}
	exact, ediags := typeexpr.Type(e)
	want, ok, dup = refType(e, false)
	if !dup {
		sym.Assert(ediags.HasErrors() == !ok, "exactly exact type specifications are accepted")
		sym.Assert(!ok || exact.Equals(want), "the exact type is the one specified")
	}
	if ok && !dup {
		sym.Cover("type")
	}
	if !diags.HasErrors() {
		s := typeexpr.TypeString(got)
		sym.ObserveStr("text", s)
		e2, d2 := hclsyntax.ParseExpression([]byte(s), "t.hcl", lib.Start)
		sym.Assert(!d2.HasErrors(), "the type renders as an expression")
		if !d2.HasErrors() {
			again, d2 := typeexpr.TypeConstraint(e2)
			sym.Assert(!d2.HasErrors() && again.Equals(got), "the rendered type is the type")
		}
	}
}

// TypeDocs: type expressions with any byte replaced or inserted.
func TypeDocs() { reads(lib.Mutate(typeDocs, typeAlpha)) }

const typeAlpha = "abl(){}[]=:,.*\"$ \n1-"

var typeDocs = []string{
	"list(string)",
	"map(set(any))",
	"tuple([bool, number])",
	"object({a=string,b=bool})",
	"object({z=string,for=bool})",
	"list(any...)",
	"tuple([])",
}

// TypeExpr: any expression.
func TypeExpr() { reads(lib.ExprSrc(sym.Param("n", 3))) }
