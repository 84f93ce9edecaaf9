// Package hscan holds the harnesses about the native syntax scanner.
package hscan

import (
	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// advance returns the position reached after reading b from p.
func advance(p hcl.Pos, b []byte) hcl.Pos {
	p.Byte += len(b)
	for len(b) > 0 {
		adv, seq, err := textseg.ScanGraphemeClusters(b, true)
		if err != nil || adv <= 0 {
			sym.Fail("grapheme scan")
		}
		if seq[len(seq)-1] == '\n' && (len(seq) == 1 || len(seq) == 2 && seq[0] == '\r') {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
		p.Line, p.Column = sym.Concrete(p.Line), sym.Concrete(p.Column)
		b = b[adv:]
	}
	return p
}

func checkTiling(src []byte) {
	sym.ObserveBytes("src", src)
	mode := sym.Param("mode", -1)
	if mode < 0 {
		mode = sym.Choice(3)
	}
	start := hcl.Pos{Line: 1, Column: 1, Byte: 0}
	if sym.Param("shift", 0) != 0 {
		start = hcl.Pos{Line: 7, Column: 4, Byte: 100}
	}
	var toks hclsyntax.Tokens
	switch mode {
	case 0:
		toks, _ = hclsyntax.LexConfig(src, "t.hcl", start)
	case 1:
		toks, _ = hclsyntax.LexExpression(src, "t.hcl", start)
	default:
		toks, _ = hclsyntax.LexTemplate(src, "t.hcl", start)
	}
	sym.ObserveInt("mode", mode)
	sym.ObserveInt("ntoks", len(toks))
	sym.Assert(len(toks) > 0, "there is at least an end-of-file token")
	ofs := 0
	pos := start
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		ofs = 3
		pos.Byte += 3
		sym.Cover("bom")
	}
	for i, t := range toks {
		so := t.Range.Start.Byte - start.Byte
		eo := t.Range.End.Byte - start.Byte
		sym.Assert(so >= ofs && eo >= so && eo <= len(src), "tokens are in order and inside the source")
		for ; ofs < so; ofs++ {
			c := src[ofs]
			sym.Assert(c == ' ' || c == '\t', "only blanks between tokens")
			pos.Byte++
			pos.Column++
		}
		sym.Assert(t.Range.Filename == "t.hcl", "token filename")
		sym.Assert(t.Range.Start == pos, "token starts at the position its preceding text implies")
		sym.Assert(len(t.Bytes) == eo-so, "token bytes have the length of its range")
		for j := 0; j < eo-so; j++ {
			sym.Assert(t.Bytes[j] == src[so+j], "token bytes are the source bytes")
		}
		pos = advance(pos, src[so:eo])
		sym.Assert(t.Range.End == pos, "token ends at the position its text implies")
		ofs = eo
		sym.ObserveInt("ty", int(t.Type))
		if i == len(toks)-1 {
			sym.Assert(t.Type == hclsyntax.TokenEOF && so == eo && eo == len(src), "final token is end-of-file at the end")
		} else {
			sym.Assert(t.Type != hclsyntax.TokenEOF, "end-of-file token only at the end")
			sym.Assert(eo > so, "tokens are not empty")
			if mode == 0 {
				sym.Cover("nonempty")
			}
		}
	}
}

// TileAny: every byte string up to length n.
func TileAny() {
	n := sym.Choice(sym.Param("n", 2) + 1)
	checkTiling(sym.Bytes(n))
}

// TileAlpha: longer strings over the characters the scanner treats specially.
func TileAlpha() {
	checkTiling(sym.BytesIn("a1.\"$%{}~<\n\\#/* -", sym.Param("n", 4)))
}

// TileHeredoc: heredoc introducer followed by arbitrary special characters.
func TileHeredoc() {
	intro := []string{"<<A\n", "<<-A\r\n", "\"${<<A\n", "<<A\n${<<B\n"}[sym.Choice(4)]
	src := append([]byte(intro), sym.BytesIn("AB \n\r$%{}\"~\xc3\xa9", sym.Param("n", 4))...)
	checkTiling(src)
}

// TileQuoted: opening quote (also inside an interpolation) then special characters.
func TileQuoted() {
	intro := []string{"\"", "\"${\"", "\"%{", "${"}[sym.Choice(4)]
	src := append([]byte(intro), sym.BytesIn("a\"$%{}~\\\n\r \xc3\xa9/", sym.Param("n", 4))...)
	checkTiling(src)
}

// TileUnicode: sequences of multi-byte characters, combining marks, line
// breaks and delimiters, with a free byte at the end.
func TileUnicode() {
	items := []string{"é", "é", "́", "\U0001F468‍\U0001F469", "\r\n", "\n", "\xef\xbb\xbf", "a", " ", "\"", "${", "}", "# ", "/*", "가"}
	var src []byte
	k := sym.Param("k", 2)
	for i := 0; i < k; i++ {
		src = append(src, items[sym.Choice(len(items))]...)
	}
	src = append(src, sym.Byte())
	checkTiling(src)
}

// TileRuns: long runs of two or three different characters.
func TileRuns() {
	k := sym.Param("k", 2)
	src := []byte([]string{"", "a", "\"", "<<A\n", "#", "/*"}[sym.Choice(6)])
	for i := 0; i < k; i++ {
		c := sym.ByteIn("a1 \t\n.\"$%{}<-#*\r\\")
		n := []int{1, 2, 9, 17}[sym.Choice(4)]
		for j := 0; j < n; j++ {
			src = append(src, c)
		}
	}
	checkTiling(append(src, "x y"...))
}

// TileDocs: documents using every construct, with one edit.
func TileDocs() {
	docs := append(append(append([]string(nil), lib.ExprDocs...), lib.TmplDocs...), lib.ConfDocs...)
	checkTiling(lib.Mutate(docs, "a1. \t\n\r\"$%{}<>-=#/*\\\xc3"))
}
