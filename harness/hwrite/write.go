// Package hwrite holds the harnesses about rewriting source.
package hwrite

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

func lex(src []byte) hclsyntax.Tokens {
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", lib.Start)
	return toks
}

// sameTokens asserts that two sources have the same tokens.
func sameTokens(a, b []byte, what string) {
	sameTokenList(lex(a), lex(b), what)
}

func sameTokenList(ta, tb hclsyntax.Tokens, what string) {
	sym.Assert(len(ta) == len(tb), what+": as many tokens")
	for i := range ta {
		if i >= len(tb) {
			return
		}
		sym.Assert(ta[i].Type == tb[i].Type && string(ta[i].Bytes) == string(tb[i].Bytes), what+": same tokens")
	}
}

func unchanged(src []byte) {
	sym.ObserveBytes("src", src)
	file, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assume(!diags.HasErrors())
	sym.Cover("valid")
	fm := hclwrite.Format(src)
	sym.ObserveBytes("formatted", fm)
	sameTokens(src, fm, "format")
	sym.Assert(string(hclwrite.Format(fm)) == string(fm), "formatting formatted text changes nothing")
	f, diags := hclwrite.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors() && f != nil, "valid source loads")
	if f == nil {
		return
	}
	out := f.Bytes()
	sym.ObserveBytes("out", out)
	sameTokens(src, out, "write")
	sym.Assert(string(f.Bytes()) == string(out), "writing again gives the same")
	items(file.Body.(*hclsyntax.Body), f.Body())
}

// items asserts that the loaded body offers the items of the parsed body.
func items(b *hclsyntax.Body, w *hclwrite.Body) {
	as := w.Attributes()
	sym.Assert(len(as) == len(b.Attributes), "the attributes are those of the source")
	for _, n := range lib.AttrNames(b.Attributes) {
		a := w.GetAttribute(n)
		sym.Assert(a != nil && as[n] == a, "an attribute is found by name")
		if a != nil {
			sym.Assert(len(a.Expr().Variables()) == len(b.Attributes[n].Expr.Variables()), "variables of an attribute")
		}
	}
	bs := w.Blocks()
	sym.Assert(len(bs) == len(b.Blocks), "the blocks are those of the source")
	for i, wb := range bs {
		if i < len(b.Blocks) {
			items(b.Blocks[i].Body, wb.Body())
		}
	}
}

// Config: configurations.
func Config() { unchanged(lib.ConfSrc(sym.Param("n", 2))) }

// Expr: an attribute with an expression.
func Expr() {
	src := append([]byte("a = "), lib.ExprSrc(sym.Param("n", 2))...)
	unchanged(append(src, '\n'))
}

// Free: any bytes.
func Free() { unchanged(sym.Bytes(sym.Param("n", 3))) }

// Docs: configurations and expressions using every construct, with one edit.
func Docs() {
	if sym.Param("e", 0) == 2 {
		unchanged(lib.Mutate(fmtDocs, fmtAlpha))
		return
	}
	if sym.Param("e", 0) == 1 {
		src := append([]byte("a = "), lib.Mutate(lib.ExprDocs, lib.Alpha)...)
		unchanged(append(src, '\n'))
		return
	}
	unchanged(lib.Mutate(lib.ConfDocs, lib.ConfAlpha))
}

const fmtAlpha = " \n#={}[]()\"a1,.-\t"

// fmtDocs are configurations whose layout matters.
var fmtDocs = []string{
	"a = 1 # x\nbb=22 // y\n\nc   =   [ # z\n  1 , 2\n]\n",
	"a { # x\n b = { c = 1 } /* y */\n}\n",
	"a = \"\u00e9${ b }${c}\" # x\nb\u00e9 = 1 # y\n",
	"a = <<A\n  x\nA\nb = 1 # c\n",
	"a = x ? - 1 : ! y\nb = [for x in [ 1 ] : - x]\nc = f ( 1 , l ... )\n",
	"a = {\n b = 1\n cc = 2 # d\n}\n",
}
