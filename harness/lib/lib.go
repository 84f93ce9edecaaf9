// Package lib holds reference models and helpers shared by harnesses.
package lib

import (
	"sort"
	"strconv"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
)

// Start is the usual starting position.
var Start = hcl.Pos{Line: 1, Column: 1, Byte: 0}

// Ctx returns an evaluation context with a value of every kind and a few functions.
func Ctx() *hcl.EvalContext {
	return &hcl.EvalContext{
		Variables: map[string]cty.Value{
			"a": cty.StringVal("x"),
			"b": cty.True,
			"i": cty.NumberIntVal(1),
			"l": cty.ListVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q")}),
			"t": cty.TupleVal([]cty.Value{cty.StringVal("p"), cty.NumberIntVal(2)}),
			"o": cty.ObjectVal(map[string]cty.Value{"a": cty.StringVal("oa"), "b": cty.NumberIntVal(3)}),
			"m": cty.MapVal(map[string]cty.Value{"a": cty.StringVal("ma")}),
			"s": cty.SetVal([]cty.Value{cty.StringVal("z")}),
			"e": cty.EmptyTupleVal,
			"n": cty.NullVal(cty.DynamicPseudoType),
			"u": cty.UnknownVal(cty.String),
			"d": cty.DynamicVal,
		},
		Functions: Funcs(),
	}
}

// Funcs returns the functions of Ctx.
func Funcs() map[string]function.Function {
	return map[string]function.Function{
		"f": function.New(&function.Spec{
			Params: []function.Parameter{{Name: "x", Type: cty.String}},
			Type:   function.StaticReturnType(cty.String),
			Impl: func(args []cty.Value, ret cty.Type) (cty.Value, error) {
				return cty.StringVal("f:" + args[0].AsString()), nil
			},
		}),
		"g": function.New(&function.Spec{
			VarParam: &function.Parameter{Name: "x", Type: cty.Number},
			Type:     function.StaticReturnType(cty.Number),
			Impl: func(args []cty.Value, ret cty.Type) (cty.Value, error) {
				return cty.NumberIntVal(int64(len(args))), nil
			},
		}),
	}
}

// Show renders a value for observation.
func Show(v cty.Value) string {
	if v == cty.NilVal {
		return "nil"
	}
	ty := v.Type()
	if !v.IsKnown() {
		return "unknown(" + ty.FriendlyName() + ")"
	}
	if v.IsNull() {
		return "null"
	}
	switch {
	case ty == cty.String:
		return strconv.Quote(v.AsString())
	case ty == cty.Bool:
		if v.True() {
			return "true"
		}
		return "false"
	case ty == cty.Number:
		return v.AsBigFloat().Text('g', 20)
	case ty.IsListType() || ty.IsTupleType() || ty.IsSetType():
		s := "["
		for it := v.ElementIterator(); it.Next(); {
			_, ev := it.Element()
			s += Show(ev) + ","
		}
		return s + "]"
	case ty.IsMapType() || ty.IsObjectType():
		s := "{"
		for it := v.ElementIterator(); it.Next(); {
			k, ev := it.Element()
			s += Show(k) + "=" + Show(ev) + ","
		}
		return s + "}"
	}
	return "?"
}

// PosOf computes the position of a byte offset in ASCII text without carriage returns.
func PosOf(src []byte, ofs int) hcl.Pos {
	p := Start
	for i := 0; i < ofs; i++ {
		if src[i] == '\n' {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
	}
	p.Byte = ofs
	return p
}

// RangeOK asserts that r is a range of src with matching positions.
func RangeOK(src []byte, r hcl.Range, what string) {
	sym.Assert(r.Filename == "t.hcl", what+": filename")
	sym.Assert(r.Start.Byte >= 0 && r.Start.Byte <= r.End.Byte && r.End.Byte <= len(src), what+": range inside the file")
	sym.Assert(r.Start == PosOf(src, r.Start.Byte), what+": start line and column")
	sym.Assert(r.End == PosOf(src, r.End.Byte), what+": end line and column")
}

// Covers reports whether outer contains inner.
func Covers(outer, inner hcl.Range) bool {
	return outer.Start.Byte <= inner.Start.Byte && inner.End.Byte <= outer.End.Byte
}

// Partial is set while the construct under inspection results from error
// recovery, so that only ranges as such are checked.
var Partial bool

// DiagsOK asserts that every diagnostic is complete and points into src.
func DiagsOK(src []byte, diags hcl.Diagnostics, what string) {
	for _, d := range diags {
		sym.Assert(d.Severity == hcl.DiagError || d.Severity == hcl.DiagWarning, what+": severity")
		sym.Assert(d.Summary != "", what+": summary")
		if d.Subject != nil {
			RangeOK(src, *d.Subject, what+" subject ("+d.Summary+")")
		}
		if d.Context != nil {
			RangeOK(src, *d.Context, what+" context ("+d.Summary+")")
			if d.Subject != nil && !Partial {
				sym.Assert(Covers(*d.Context, *d.Subject), what+": context covers subject ("+d.Summary+")")
			}
		}
	}
}

// Inspect applies every read-only operation to an expression.
func Inspect(e hcl.Expression) {
	e.Range()
	e.StartRange()
	e.Variables()
	hcl.ExprCall(e)
	hcl.ExprList(e)
	hcl.ExprMap(e)
	hcl.AbsTraversalForExpr(e)
	hcl.RelTraversalForExpr(e)
	hcl.ExprAsKeyword(e)
	hcl.UnwrapExpression(e)
	if n, ok := e.(hclsyntax.Node); ok {
		hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics {
			n.Range()
			return nil
		})
	}
	v, diags := e.Value(nil)
	sym.Assert(v != cty.NilVal, "evaluation without context gives a value")
	v, diags = e.Value(Ctx())
	sym.Assert(v != cty.NilVal, "evaluation gives a value")
	sym.ObserveInt("vd", len(diags))
	if !diags.HasErrors() {
		sym.ObserveStr("v", Show(v))
	}
}

// AttrNames returns the names of native attributes in order.
func AttrNames(attrs hclsyntax.Attributes) []string {
	var names []string
	for n := range attrs {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

// InspectBody applies every read-only operation to a native body.
func InspectBody(b *hclsyntax.Body) {
	b.Range()
	b.MissingItemRange()
	b.JustAttributes()
	b.Content(&hcl.BodySchema{})
	c, rem, _ := b.PartialContent(&hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "b"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"x"}}, {Type: "c"}},
	})
	sym.Assert(c != nil && rem != nil, "content is returned")
	rem.JustAttributes()
	rem.Content(&hcl.BodySchema{})
	for _, name := range AttrNames(b.Attributes) {
		a := b.Attributes[name]
		a.Range()
		Inspect(a.Expr)
		Inspect(a.AsHCLAttribute().Expr)
	}
	for _, bl := range b.Blocks {
		bl.Range()
		bl.DefRange()
		bl.AsHCLBlock()
		InspectBody(bl.Body)
	}
}

// Balanced reports whether all brackets, quotes, heredocs and template
// sequences of the tokens are closed in order.
func Balanced(toks hclsyntax.Tokens) bool {
	var st []hclsyntax.TokenType
	for _, t := range toks {
		switch t.Type {
		case hclsyntax.TokenOBrace:
			st = append(st, hclsyntax.TokenCBrace)
		case hclsyntax.TokenOBrack:
			st = append(st, hclsyntax.TokenCBrack)
		case hclsyntax.TokenOParen:
			st = append(st, hclsyntax.TokenCParen)
		case hclsyntax.TokenOQuote:
			st = append(st, hclsyntax.TokenCQuote)
		case hclsyntax.TokenOHeredoc:
			st = append(st, hclsyntax.TokenCHeredoc)
		case hclsyntax.TokenTemplateInterp, hclsyntax.TokenTemplateControl:
			st = append(st, hclsyntax.TokenTemplateSeqEnd)
		case hclsyntax.TokenCBrace, hclsyntax.TokenCBrack, hclsyntax.TokenCParen, hclsyntax.TokenCQuote, hclsyntax.TokenCHeredoc, hclsyntax.TokenTemplateSeqEnd:
			if len(st) == 0 || st[len(st)-1] != t.Type {
				return false
			}
			st = st[:len(st)-1]
		}
	}
	return len(st) == 0
}

// HasInvalid reports whether any token can never be part of valid input.
func HasInvalid(toks hclsyntax.Tokens) bool {
	for _, t := range toks {
		switch t.Type {
		case hclsyntax.TokenInvalid, hclsyntax.TokenBadUTF8, hclsyntax.TokenQuotedNewline,
			hclsyntax.TokenBitwiseAnd, hclsyntax.TokenBitwiseOr, hclsyntax.TokenBitwiseNot, hclsyntax.TokenBitwiseXor,
			hclsyntax.TokenStarStar, hclsyntax.TokenApostrophe, hclsyntax.TokenBacktick, hclsyntax.TokenSemicolon, hclsyntax.TokenTabs:
			return true
		}
	}
	return false
}
