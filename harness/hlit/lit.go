// Package hlit holds the harnesses about literals and templates.
package hlit

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func utf8Of(r int) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{0xC0 | byte(r>>6), 0x80 | byte(r&0x3F)}
	case r < 0x10000:
		return []byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)}
	}
	return []byte{0xF0 | byte(r>>18), 0x80 | byte(r>>12&0x3F), 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)}
}

// decode is the language definition of a quoted literal's content. st is
// "ok", "bad" (an error must be reported) or "other" (the text ends early
// or contains a template sequence).
func decode(raw []byte) (out []byte, st string) {
	st = "ok"
	for i := 0; i < len(raw); i++ {
		c := raw[i]
		next := func(k int) byte {
			if i+k < len(raw) {
				return raw[i+k]
			}
			return 0
		}
		switch {
		case c == '"':
			return nil, "other"
		case c == '\n' || c == '\r':
			return nil, "bad"
		case (c == '$' || c == '%') && next(1) == '{':
			return nil, "other"
		case (c == '$' || c == '%') && next(1) == c && next(2) == '{':
			out = append(out, c, '{')
			i += 2
		case c == '\\':
			if i+1 >= len(raw) {
				return nil, "other" // escapes the closing quote
			}
			i++
			switch raw[i] {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case '"':
				out = append(out, '"')
			case '\\':
				out = append(out, '\\')
			case 'u', 'U':
				n := 4
				if raw[i] == 'U' {
					n = 8
				}
				r := 0
				for k := 1; k <= n; k++ {
					h := -1
					if i+k < len(raw) {
						h = hexVal(raw[i+k])
					}
					if h < 0 {
						return nil, "bad"
					}
					r = r*16 + h
				}
				if r > 0x10FFFF || r >= 0xD800 && r < 0xE000 {
					return nil, "bad"
				}
				out = append(out, utf8Of(sym.Concrete(r))...)
				i += n
			default:
				return nil, "bad"
			}
		default:
			out = append(out, c)
		}
	}
	return out, st
}

func quoted(raw []byte) {
	src := append([]byte{'"'}, raw...)
	src = append(src, '"')
	sym.ObserveBytes("src", src)
	want, st := decode(raw)
	sym.Assume(st != "other")
	// as an expression
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	// as a block label
	conf := append([]byte("b "), src...)
	conf = append(conf, " {\n}\n"...)
	f, cdiags := hclsyntax.ParseConfig(conf, "t.hcl", lib.Start)
	if st == "bad" {
		sym.Cover("bad")
		sym.Assert(diags.HasErrors(), "an undefined or incomplete escape is an error")
		sym.Assert(cdiags.HasErrors(), "an undefined or incomplete escape is an error in a label")
		return
	}
	sym.Cover("ok")
	sym.Assert(!diags.HasErrors(), "a valid literal is accepted")
	v, diags := e.Value(nil)
	sym.Assert(!diags.HasErrors() && v.Type() == cty.String && v.IsKnown() && !v.IsNull(), "a literal is a known string")
	got := v.AsString()
	sym.ObserveStr("v", got)
	sym.Assert(got == string(want), "the literal's value is its decoded content")
	sym.Assert(!cdiags.HasErrors(), "a valid label is accepted")
	body := f.Body.(*hclsyntax.Body)
	sym.Assert(len(body.Blocks) == 1 && len(body.Blocks[0].Labels) == 1 && body.Blocks[0].Labels[0] == string(want), "a label is the decoded content")
	// as an object key and an index
	e, diags = hclsyntax.ParseExpression(append(append([]byte("{"), src...), "=1}"...), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a literal can be an object key")
	v, diags = e.Value(nil)
	sym.Assert(!diags.HasErrors() && v.Type().HasAttribute(string(want)), "an object key is the decoded content")
	tr, diags := hclsyntax.ParseTraversalAbs(append(append([]byte("a["), src...), ']'), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors() && len(tr) == 2, "a literal can be a traversal index")
}

// Quoted: every literal content over the characters with a meaning.
func Quoted() {
	quoted(sym.BytesIn("a\\nrt\"$%{u0 \n", sym.Param("n", 4)))
}

// QuotedBytes: any printable ASCII bytes.
func QuotedBytes() {
	raw := sym.Bytes(sym.Param("n", 2))
	for _, c := range raw {
		sym.Assume(c >= 0x20 && c < 0x7f)
	}
	quoted(raw)
}

// Escapes: the \u and \U escapes with symbolic digits.
func Escapes() {
	var raw []byte
	switch sym.Choice(5) {
	case 0:
		raw = append([]byte("\\u"), sym.BytesIn("0dDe8", 2)...)
		raw = append(raw, '0', sym.ByteIn("0g9"))
	case 1:
		raw = append([]byte("\\U00"), sym.BytesIn("01fg", 3)...)
		raw = append(raw, "041"...)
	case 2:
		raw = append([]byte("\\u00"), sym.BytesIn("0469g\"", 2)...)
		raw = append(raw, "a$${"...)
	case 3:
		raw = append([]byte("$$"), sym.BytesIn("$%{\\", 3)...)
	case 4:
		raw = append([]byte("%%"), sym.BytesIn("$%{\\n", 3)...)
	}
	quoted(raw)
}

// Unicode: literal multi-byte text next to escapes.
func Unicode() {
	items := []string{"é", "\U0001F468‍\U0001F469", "\\u00e9", "\\U0001f600", "\\n", "$${", "a", "$", "%%{", "́"}
	var raw []byte
	k := sym.Param("k", 3)
	for i := 0; i < k; i++ {
		raw = append(raw, items[sym.Choice(len(items))]...)
	}
	raw = append(raw, sym.ByteIn("ab\\"))
	want, st := decode(raw)
	// strings are normalised to NFC by the value system
	src := append(append([]byte{'"'}, raw...), '"')
	sym.ObserveBytes("src", src)
	sym.Assume(st == "ok")
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a valid literal is accepted")
	v, _ := e.Value(nil)
	sym.Assert(v.RawEquals(cty.StringVal(string(want))), "the literal's value is its decoded content")
}

// line is one line of a heredoc: raw text and decoded text
type piece struct {
	lit    bool
	text   []byte // decoded literal text or the value of the interpolation
	source string
}

// Heredoc: every content made of k pieces: symbolic characters, doubled
// introducers and interpolations; plain and indented forms.
func Heredoc() {
	k := sym.Param("k", 5)
	flush := sym.Bool()
	var src []byte
	if flush {
		src = append(src, "<<-A\n"...)
	} else {
		src = append(src, "<<A\n"...)
	}
	var ps []piece
	for i := 0; i < k; i++ {
		switch sym.Choice(3) {
		case 0:
			ps = append(ps, piece{false, []byte("x"), "${a}"})
		case 1:
			ps = append(ps, piece{true, []byte("${"), "$${"})
		default:
			c := sym.ByteIn(" \t\nb\\%$")
			ps = append(ps, piece{true, []byte{c}, string([]byte{c})})
		}
	}
	ps = append(ps, piece{true, []byte("\n"), "\n"})
	for i, p := range ps {
		if i > 0 {
			// a symbolic introducer character must not combine with what follows
			pc := ps[i-1].source
			last := pc[len(pc)-1]
			sym.Assume(!(last == '$' && p.source[0] == '$'))
			sym.Assume(!(last == '%' && p.source[0] == '%'))
		}
		src = append(src, p.source...)
	}
	if flush {
		src = append(src, "  "...)
	}
	src = append(src, "A\n"...)
	sym.ObserveBytes("src", src)

	want := heredocValue(ps, flush)
	e, diags := hclsyntax.ParseExpression(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a heredoc is accepted")
	v, diags := e.Value(lib.Ctx())
	sym.Assert(!diags.HasErrors() && v.Type() == cty.String, "a heredoc is a string")
	got := v.AsString()
	sym.ObserveStr("v", got)
	sym.Cover("value")
	sym.Assert(got == string(want), "the heredoc's value is its text")
	// the same template in a configuration
	f, diags := hclsyntax.ParseConfig(append(append([]byte("q = "), src...), "z = 1\n"...), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a heredoc argument is accepted")
	attrs := f.Body.(*hclsyntax.Body).Attributes
	sym.Assert(len(attrs) == 2, "the text after a heredoc is parsed")
	v, _ = attrs["q"].Expr.Value(lib.Ctx())
	sym.Assert(v.AsString() == string(want), "the heredoc argument's value is its text")
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' }

func heredocValue(ps []piece, flush bool) []byte {
	// split into lines
	type line struct {
		indent  int // leading blanks
		blank   bool
		content []byte
		interp  bool // begins with something other than a literal
	}
	var lines []line
	cur := line{blank: true}
	lead := true
	for _, p := range ps {
		if !p.lit {
			lead = false
			cur.blank = false
			cur.content = append(cur.content, p.text...)
			continue
		}
		for _, c := range p.text {
			if c == '\n' {
				cur.content = append(cur.content, c)
				lines = append(lines, cur)
				cur = line{blank: true}
				lead = true
				continue
			}
			if !isBlank(c) {
				lead = false
				cur.blank = false
			} else if lead {
				cur.indent++
			}
			cur.content = append(cur.content, c)
		}
	}
	min := -1
	for _, l := range lines {
		if !l.blank && (min < 0 || l.indent < min) {
			min = l.indent
		}
	}
	var out []byte
	for _, l := range lines {
		c := l.content
		if flush && !l.blank && min > 0 {
			c = c[min:]
		}
		out = append(out, c...)
	}
	return out
}
