// Package hsyn holds the harnesses about the native syntax parser.
package hsyn

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

func checkDiags(diags hcl.Diagnostics) {
	sym.ObserveInt("d", len(diags))
	for _, d := range diags {
		sym.ObserveStr("s", d.Summary)
		sym.Assert(d.Severity == hcl.DiagError && d.Summary != "", "parse problems are errors with a summary")
	}
}

func outside(toks hclsyntax.Tokens, r hcl.Range) bool {
	for _, t := range toks {
		if t.Range.Start.Byte >= r.Start.Byte && t.Range.End.Byte <= r.End.Byte {
			continue
		}
		switch t.Type {
		case hclsyntax.TokenNewline, hclsyntax.TokenComment, hclsyntax.TokenEOF, hclsyntax.TokenOParen, hclsyntax.TokenCParen:
		default:
			return true
		}
	}
	return false
}

// extent is the source covered by an expression and all nodes inside it.
// (The range of an index or splat operation is only that of its operator.)
func extent(e hclsyntax.Expression) hcl.Range {
	r := e.Range()
	hclsyntax.VisitAll(e, func(n hclsyntax.Node) hcl.Diagnostics {
		nr := n.Range()
		if nr.Start.Byte < r.Start.Byte {
			r.Start = nr.Start
		}
		if nr.End.Byte > r.End.Byte {
			r.End = nr.End
		}
		return nil
	})
	return r
}

// TotalExpr parses any expression text and inspects the result.
func TotalExpr() {
	totalExpr(lib.ExprSrc(sym.Param("n", 2)))
}

func totalExpr(src []byte) {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	checkDiags(diags)
	sym.Assert(expr != nil, "an expression is returned")
	if !diags.HasErrors() {
		sym.Cover("accepted")
		toks, _ := hclsyntax.LexExpression(src, "t.hcl", lib.Start)
		sym.Assert(lib.Balanced(toks), "accepted expression has balanced delimiters")
		sym.Assert(!lib.HasInvalid(toks), "accepted expression has no invalid tokens")
		sym.Assert(!outside(toks, extent(expr)), "accepted expression covers all of its tokens")
	}
	lib.Inspect(expr)
}

// TotalExprBytes: as TotalExpr for arbitrary bytes.
func TotalExprBytes() {
	src := sym.Bytes(sym.Choice(sym.Param("n", 2) + 1))
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	checkDiags(diags)
	sym.Assert(expr != nil, "an expression is returned")
	if !diags.HasErrors() {
		sym.Cover("accepted")
		toks, _ := hclsyntax.LexExpression(src, "t.hcl", lib.Start)
		sym.Assert(lib.Balanced(toks) && !lib.HasInvalid(toks), "accepted expression is well formed")
	}
	lib.Inspect(expr)
}

// TotalTemplate parses any template text and inspects the result.
func TotalTemplate() {
	totalTemplate(lib.TmplSrc(sym.Param("n", 2)))
}

func totalTemplate(src []byte) {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseTemplate(src, "t.hcl", lib.Start)
	checkDiags(diags)
	sym.Assert(expr != nil, "an expression is returned")
	if !diags.HasErrors() {
		sym.Cover("accepted")
		toks, _ := hclsyntax.LexTemplate(src, "t.hcl", lib.Start)
		sym.Assert(lib.Balanced(toks) && !lib.HasInvalid(toks), "accepted template is well formed")
	}
	lib.Inspect(expr)
}

// TotalTraversal parses any traversal text.
func TotalTraversal() {
	src := lib.TravSrc(sym.Param("n", 2))
	sym.ObserveBytes("src", src)
	tr, diags := hclsyntax.ParseTraversalAbs(src, "t.hcl", lib.Start)
	checkDiags(diags)
	if !diags.HasErrors() {
		sym.Cover("accepted")
		toks, _ := hclsyntax.LexExpression(src, "t.hcl", lib.Start)
		sym.Assert(lib.Balanced(toks) && !lib.HasInvalid(toks), "accepted traversal is well formed")
		sym.Assert(len(tr) > 0 && !tr.IsRelative(), "accepted traversal is absolute")
		sym.Assert(!outside(toks, tr.SourceRange()), "accepted traversal covers all of its tokens")
		tr.RootName()
	}
	if len(tr) > 0 {
		tr.SourceRange()
		if !tr.IsRelative() {
			tr.TraverseAbs(lib.Ctx())
		}
	}
}

// TotalConfig parses any configuration text and inspects the result.
func TotalConfig() {
	src := lib.ConfSrc(sym.Param("n", 2))
	checkConfig(src)
}

// TotalConfigBytes: as TotalConfig for arbitrary bytes.
func TotalConfigBytes() {
	checkConfig(sym.Bytes(sym.Choice(sym.Param("n", 2) + 1)))
}

func checkConfig(src []byte) {
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	checkDiags(diags)
	sym.Assert(f != nil && f.Body != nil, "a body is returned")
	body := f.Body.(*hclsyntax.Body)
	if !diags.HasErrors() {
		sym.Cover("accepted")
		toks, _ := hclsyntax.LexConfig(src, "t.hcl", lib.Start)
		sym.Assert(lib.Balanced(toks) && !lib.HasInvalid(toks), "accepted configuration is well formed")
		checkItems(body, toks, 0, len(src))
	}
	lib.InspectBody(body)
}

// checkItems asserts that every significant token between lo and hi belongs to
// an attribute or block of the body.
func checkItems(b *hclsyntax.Body, toks hclsyntax.Tokens, lo, hi int) {
	for _, t := range toks {
		if t.Range.Start.Byte < lo || t.Range.End.Byte > hi {
			continue
		}
		switch t.Type {
		case hclsyntax.TokenNewline, hclsyntax.TokenComment, hclsyntax.TokenEOF, hclsyntax.TokenOParen, hclsyntax.TokenCParen:
			continue
		}
		n := 0
		for _, a := range b.Attributes {
			if lib.Covers(a.SrcRange, t.Range) {
				n++
			}
		}
		for _, bl := range b.Blocks {
			if lib.Covers(hcl.RangeBetween(bl.TypeRange, bl.CloseBraceRange), t.Range) {
				n++
			}
		}
		sym.Assert(n == 1, "every token of an accepted body belongs to exactly one item")
	}
	for _, bl := range b.Blocks {
		checkItems(bl.Body, toks, bl.OpenBraceRange.End.Byte, bl.CloseBraceRange.Start.Byte)
	}
}

func compare(ok bool, want string, diags hcl.Diagnostics, got func() string) {
	if diags.HasErrors() {
		sym.Assert(!ok, "text allowed by the grammar is accepted")
		return
	}
	sym.Assert(ok, "text outside the grammar is reported as an error")
	sym.Cover("accepted")
	g := got()
	sym.ObserveStr("tree", g)
	sym.Assert(g == want, "the tree is the one the grammar prescribes")
}

// GrammarExpr compares acceptance and shape with the reference grammar.
func GrammarExpr() {
	src := lib.ExprSrc(sym.Param("n", 2))
	grammarExpr(src)
}

// GrammarTokens: sequences of whole tokens.
func GrammarTokens() {
	items := []string{"a", "1", "\"s\"", "(", ")", "[", "]", "{", "}", ",", "=", ":", "?", "-", "!", "+", "*", "==", "&&", ".b", ".*", "[*]", "...", "=>", "\n", "f(", "for x in", "if"}
	k := sym.Param("k", 3)
	var src []byte
	for i := 0; i < k; i++ {
		src = append(src, items[sym.Choice(len(items))]...)
		src = append(src, ' ')
	}
	grammarExpr(src)
}

func grammarExpr(src []byte) hcl.Expression {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	toks, _ := hclsyntax.LexExpression(src, "t.hcl", lib.Start)
	want, ok := lib.RefExpr(toks)
	compare(ok, want, diags, func() string { return lib.Dump(expr) })
	return expr
}

// GrammarTemplate compares template acceptance and shape with the reference grammar.
func GrammarTemplate() {
	grammarTemplate(lib.TmplSrc(sym.Param("n", 2)))
}

func grammarTemplate(src []byte) hcl.Expression {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseTemplate(src, "t.hcl", lib.Start)
	toks, _ := hclsyntax.LexTemplate(src, "t.hcl", lib.Start)
	want, ok := lib.RefTemplate(toks)
	compare(ok, want, diags, func() string { return lib.Dump(expr) })
	return expr
}

// GrammarDirectives: sequences of template directives.
func GrammarDirectives() {
	items := []string{"%{if b}", "%{else}", "%{endif}", "%{for x in l}", "%{endfor}", "${a}", "t", "%{ if b ~}", "%{~ endif}", "%{for k,v in m}"}
	k := sym.Param("k", 3)
	var src []byte
	for i := 0; i < k; i++ {
		src = append(src, items[sym.Choice(len(items))]...)
	}
	grammarTemplate(src)
}

// GrammarConfig compares configuration acceptance and shape with the reference grammar.
func GrammarConfig() {
	grammarConfig(lib.ConfSrc(sym.Param("n", 2)))
}

func grammarConfig(src []byte) *hclsyntax.Body {
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", lib.Start)
	want, ok := lib.RefBody(toks)
	body := f.Body.(*hclsyntax.Body)
	compare(ok, want, diags, func() string { return lib.DumpBody(body) })
	return body
}

// GrammarConfigTokens: sequences of whole tokens.
func GrammarConfigTokens() {
	items := []string{"a", "b", "=", "1", "\"s\"", "{", "}", "\n", "# c\n", "/* c */", "[", "]", ",", "<<A\nx\nA\n"}
	k := sym.Param("k", 4)
	var src []byte
	for i := 0; i < k; i++ {
		src = append(src, items[sym.Choice(len(items))]...)
		src = append(src, ' ')
	}
	grammarConfig(src)
}

// Mut edits sources of every kind, compares acceptance and tree with the
// reference grammar and inspects the results.
func Mut() {
	switch sym.Choice(3) {
	case 0:
		src := lib.Mutate(lib.ExprDocs, lib.Alpha)
		expr := grammarExpr(src)
		lib.Inspect(expr)
	case 1:
		src := lib.Mutate(lib.TmplDocs, lib.Alpha)
		expr := grammarTemplate(src)
		lib.Inspect(expr)
	case 2:
		src := lib.Mutate(lib.ConfDocs, lib.ConfAlpha)
		body := grammarConfig(src)
		lib.InspectBody(body)
	}
}
