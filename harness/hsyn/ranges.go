package hsyn

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// rangeWalker asserts that nodes lie in the file and inside their parents.
type rangeWalker struct {
	src   []byte
	stack []hclsyntax.Node
}

// operatorOnly: nodes whose range is that of their operator only, so that
// the operand on the left lies outside it (documented by the parser tests).
func operatorOnly(n hclsyntax.Node) bool {
	switch n.(type) {
	case *hclsyntax.IndexExpr, *hclsyntax.SplatExpr, *hclsyntax.RelativeTraversalExpr:
		return true
	}
	return false
}

func (w *rangeWalker) Enter(n hclsyntax.Node) hcl.Diagnostics {
	switch n.(type) {
	case hclsyntax.Attributes, hclsyntax.Blocks:
		return nil
	}
	r := n.Range()
	lib.RangeOK(w.src, r, "node")
	if e, ok := n.(hclsyntax.Expression); ok {
		lib.RangeOK(w.src, e.StartRange(), "expression start")
	}
	switch n := n.(type) {
	case *hclsyntax.Attribute:
		lib.RangeOK(w.src, n.NameRange, "attribute name")
		sym.Assert(string(w.src[n.NameRange.Start.Byte:n.NameRange.End.Byte]) == n.Name, "attribute name range covers the name")
		sym.Assert(lib.Covers(n.SrcRange, n.NameRange) && lib.Covers(n.SrcRange, n.EqualsRange), "attribute covers its name and equals sign")
		sym.Assert(string(w.src[n.EqualsRange.Start.Byte:n.EqualsRange.End.Byte]) == "=", "equals range covers the equals sign")
	case *hclsyntax.Block:
		lib.RangeOK(w.src, n.TypeRange, "block type")
		sym.Assert(string(w.src[n.TypeRange.Start.Byte:n.TypeRange.End.Byte]) == n.Type, "block type range covers the type")
		sym.Assert(len(n.LabelRanges) == len(n.Labels), "one range per label")
		lib.RangeOK(w.src, n.DefRange(), "block header")
		whole := hcl.RangeBetween(n.TypeRange, n.CloseBraceRange)
		lib.RangeOK(w.src, whole, "block")
		for i, lr := range n.LabelRanges {
			lib.RangeOK(w.src, lr, "label")
			sym.Assert(lib.Covers(n.DefRange(), lr), "block header covers its labels")
			txt := string(w.src[lr.Start.Byte:lr.End.Byte])
			sym.Assert(len(txt) > 0, "label range is not empty")
			if txt[0] != '"' {
				sym.Assert(txt == n.Labels[i], "label range covers the label")
			} else {
				sym.Assert(quotedWhole(txt), "label range covers the quoted label")
			}
		}
		lib.RangeOK(w.src, n.OpenBraceRange, "open brace")
		lib.RangeOK(w.src, n.CloseBraceRange, "close brace")
		sym.Assert(n.OpenBraceRange.Start.Byte <= n.CloseBraceRange.Start.Byte, "braces are in order")
	}
	for i := len(w.stack) - 1; i >= 0; i-- {
		p := w.stack[i]
		if operatorOnly(p) {
			// only the part after the operator is inside
			break
		}
		if bl, ok := p.(*hclsyntax.Block); ok {
			sym.Assert(lib.Covers(hcl.RangeBetween(bl.TypeRange, bl.CloseBraceRange), r), "block covers its content")
			break
		}
		sym.Assert(lib.Covers(p.Range(), r), "parent covers its parts")
		break
	}
	w.stack = append(w.stack, n)
	return nil
}

// quotedWhole reports whether txt is exactly one quoted string.
func quotedWhole(txt string) bool {
	for i := 1; i < len(txt); i++ {
		switch txt[i] {
		case '\\':
			i++
		case '"':
			return i == len(txt)-1
		}
	}
	return false
}

func (w *rangeWalker) Exit(n hclsyntax.Node) hcl.Diagnostics {
	switch n.(type) {
	case hclsyntax.Attributes, hclsyntax.Blocks:
		return nil
	}
	w.stack = w.stack[:len(w.stack)-1]
	return nil
}

func rangesOf(src []byte, n hclsyntax.Node, diags hcl.Diagnostics, strict bool) {
	lib.DiagsOK(src, diags, "diagnostic")
	for _, d := range diags {
		sym.ObserveStr("s", d.Summary)
		sym.Assert(d.Subject != nil, "parse errors have a subject")
	}
	if strict {
		hclsyntax.Walk(n, &rangeWalker{src: src})
		return
	}
	hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics {
		switch n.(type) {
		case hclsyntax.Attributes, hclsyntax.Blocks:
			return nil
		}
		lib.RangeOK(src, n.Range(), "node after errors")
		return nil
	})
}

// RangesExpr: ranges of expressions, their parts and their diagnostics.
func RangesExpr() {
	rangesExpr(lib.ExprSrc(sym.Param("n", 2)))
}

func rangesExpr(src []byte) {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	rangesOf(src, expr, diags, !diags.HasErrors())
	if !diags.HasErrors() {
		sym.Cover("accepted")
		_, vd := expr.Value(lib.Ctx())
		lib.DiagsOK(src, vd, "evaluation diagnostic")
		for _, t := range expr.Variables() {
			lib.RangeOK(src, t.SourceRange(), "variable")
			sym.Assert(t.SourceRange().End == t[len(t)-1].SourceRange().End, "a reference reaches to its last step")
			for _, st := range t {
				if r, ok := st.(hcl.TraverseRoot); ok {
					sym.Assert(string(src[r.SrcRange.Start.Byte:r.SrcRange.End.Byte]) == r.Name, "root range covers its name")
				}
				lib.RangeOK(src, st.SourceRange(), "traversal step")
			}
		}
	}
}

// RangesTemplate: as RangesExpr for templates.
func RangesTemplate() {
	rangesTemplate(lib.TmplSrc(sym.Param("n", 2)))
}

func rangesTemplate(src []byte) {
	sym.ObserveBytes("src", src)
	expr, diags := hclsyntax.ParseTemplate(src, "t.hcl", lib.Start)
	rangesOf(src, expr, diags, !diags.HasErrors())
	if !diags.HasErrors() {
		sym.Cover("accepted")
		_, vd := expr.Value(lib.Ctx())
		lib.DiagsOK(src, vd, "evaluation diagnostic")
	}
}

// RangesConfig: as RangesExpr for configurations.
func RangesConfig() {
	rangesConfig(lib.ConfSrc(sym.Param("n", 2)))
}

// RangesMut: ranges for edited documents of every kind.
func RangesMut() {
	switch sym.Choice(3) {
	case 0:
		rangesExpr(lib.Mutate(lib.ExprDocs, lib.Alpha))
	case 1:
		rangesTemplate(lib.Mutate(lib.TmplDocs, lib.Alpha))
	case 2:
		rangesConfig(lib.Mutate(lib.ConfDocs, lib.ConfAlpha))
	}
}

func rangesConfig(src []byte) {
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	body := f.Body.(*hclsyntax.Body)
	rangesOf(src, body, diags, !diags.HasErrors())
	lib.Partial = diags.HasErrors()
	schema := &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"x"}}},
	}
	content, cd := body.Content(schema)
	lib.DiagsOK(src, cd, "content diagnostic")
	lib.RangeOK(src, content.MissingItemRange, "missing item")
	for _, a := range content.Attributes {
		lib.RangeOK(src, a.Range, "attribute")
		sym.Assert(string(src[a.NameRange.Start.Byte:a.NameRange.End.Byte]) == a.Name, "attribute name range covers the name")
	}
	for _, b := range content.Blocks {
		sym.Assert(string(src[b.TypeRange.Start.Byte:b.TypeRange.End.Byte]) == b.Type, "block type range covers the type")
		lib.RangeOK(src, b.DefRange, "block header")
		for _, lr := range b.LabelRanges {
			lib.RangeOK(src, lr, "label")
		}
	}
	_, jd := body.JustAttributes()
	lib.DiagsOK(src, jd, "attributes-only diagnostic")
	lib.Partial = false
}
