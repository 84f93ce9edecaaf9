// Package hlex holds the harnesses about the division of source into tokens.
package hlex

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

type tok struct {
	ty     hclsyntax.TokenType
	so, eo int
}

type frame struct {
	kind   byte // 'm' top level, 'i' interpolation, 'q' quoted, 'h' heredoc, 't' bare template
	depth  int
	marker string
	bol    bool
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }

// lexer is the lexical grammar written down directly: longest match, one
// frame per string, heredoc or interpolation being read.
type lexer struct {
	src []byte
	out []tok
	st  []frame
	// cr is set by a carriage return in literal text that ends no line
	cr bool
}

func (l *lexer) at(i int) byte {
	if i < len(l.src) {
		return l.src[i]
	}
	return 0
}

func (l *lexer) emit(ty hclsyntax.TokenType, so, eo int) int {
	n := len(l.out)
	lit := ty == hclsyntax.TokenQuotedLit || ty == hclsyntax.TokenStringLit
	if lit && n > 0 && l.out[n-1].ty == ty && l.out[n-1].eo == so {
		l.out[n-1].eo = eo
	} else {
		l.out = append(l.out, tok{ty, so, eo})
	}
	return eo
}

// number returns the end of the number literal starting at i.
func (l *lexer) number(i int) int {
	i++
	end := i
	for i < len(l.src) {
		c := l.src[i]
		switch {
		case digit(c):
			i++
			end = i
		case c == '.':
			i++
		case c == 'e' || c == 'E':
			j := i + 1
			if l.at(j) == '+' || l.at(j) == '-' {
				j++
			}
			if !digit(l.at(j)) {
				return end
			}
			i = j + 1
			end = i
		default:
			return end
		}
	}
	return end
}

func (l *lexer) ident(i int) int {
	for i < len(l.src) && (letter(l.src[i]) || digit(l.src[i]) || l.src[i] == '-') {
		i++
	}
	return i
}

// newline returns the length of the line break at i, or 0.
func (l *lexer) newline(i int) int {
	if l.at(i) == '\n' {
		return 1
	}
	if l.at(i) == '\r' && l.at(i+1) == '\n' {
		return 2
	}
	return 0
}

// comment returns the end of the comment at i, or 0.
func (l *lexer) comment(i int) int {
	if l.src[i] == '#' || l.src[i] == '/' && l.at(i+1) == '/' {
		for ; i < len(l.src); i++ {
			if l.src[i] == '\n' {
				return i + 1
			}
		}
		return i
	}
	if l.src[i] == '/' && l.at(i+1) == '*' {
		for j := i + 2; j+1 < len(l.src); j++ {
			if l.src[j] == '*' && l.src[j+1] == '/' {
				return j + 2
			}
		}
	}
	return 0
}

var two = []struct {
	s  string
	ty hclsyntax.TokenType
}{
	{"==", hclsyntax.TokenEqualOp}, {"!=", hclsyntax.TokenNotEqual},
	{">=", hclsyntax.TokenGreaterThanEq}, {"<=", hclsyntax.TokenLessThanEq},
	{"&&", hclsyntax.TokenAnd}, {"||", hclsyntax.TokenOr}, {"=>", hclsyntax.TokenFatArrow},
}

const self = "[]().,*/%+-=<>!?:&|~^;`'"

func (l *lexer) top() *frame { return &l.st[len(l.st)-1] }

func (l *lexer) code(i int) int {
	c := l.src[i]
	switch {
	case c == ' ' || c == '\t':
		return i + 1
	case digit(c):
		return l.emit(hclsyntax.TokenNumberLit, i, l.number(i))
	case letter(c):
		return l.emit(hclsyntax.TokenIdent, i, l.ident(i))
	}
	if n := l.newline(i); n > 0 {
		return l.emit(hclsyntax.TokenNewline, i, i+n)
	}
	if c == '#' || c == '/' {
		if e := l.comment(i); e > 0 {
			return l.emit(hclsyntax.TokenComment, i, e)
		}
	}
	if c == '<' && l.at(i+1) == '<' {
		j := i + 2
		if l.at(j) == '-' {
			j++
		}
		if letter(l.at(j)) {
			e := l.ident(j)
			if n := l.newline(e); n > 0 {
				l.st = append(l.st, frame{kind: 'h', marker: string(l.src[j:e]), bol: true})
				return l.emit(hclsyntax.TokenOHeredoc, i, e+n)
			}
		}
	}
	if c == '.' && l.at(i+1) == '.' && l.at(i+2) == '.' {
		return l.emit(hclsyntax.TokenEllipsis, i, i+3)
	}
	for _, t := range two {
		if c == t.s[0] && l.at(i+1) == t.s[1] {
			return l.emit(t.ty, i, i+2)
		}
	}
	f := l.top()
	if c == '}' || c == '~' && l.at(i+1) == '}' {
		e := i + 1
		if c == '~' {
			e++
		}
		if f.kind == 'i' && f.depth == 0 {
			l.st = l.st[:len(l.st)-1]
			return l.emit(hclsyntax.TokenTemplateSeqEnd, i, e)
		}
		f.depth--
		if c == '~' {
			return l.emit(hclsyntax.TokenTemplateSeqEnd, i, e)
		}
		return l.emit(hclsyntax.TokenCBrace, i, e)
	}
	if c == '{' {
		f.depth++
		return l.emit(hclsyntax.TokenOBrace, i, i+1)
	}
	if c == '"' {
		l.st = append(l.st, frame{kind: 'q'})
		return l.emit(hclsyntax.TokenOQuote, i, i+1)
	}
	for k := 0; k < len(self); k++ {
		if c == self[k] {
			return l.emit(hclsyntax.TokenType(self[k]), i, i+1)
		}
	}
	return l.emit(hclsyntax.TokenInvalid, i, i+1)
}

// intro handles a template introducer or its escaped form at i.
func (l *lexer) intro(i int, lit hclsyntax.TokenType) (int, bool) {
	c := l.src[i]
	if c != '$' && c != '%' {
		return 0, false
	}
	if l.at(i+1) == '{' {
		e := i + 2
		if l.at(e) == '~' {
			e++
		}
		l.top().bol = false
		l.st = append(l.st, frame{kind: 'i'})
		if c == '$' {
			return l.emit(hclsyntax.TokenTemplateInterp, i, e), true
		}
		return l.emit(hclsyntax.TokenTemplateControl, i, e), true
	}
	l.top().bol = false
	if l.at(i+1) == c && l.at(i+2) == '{' {
		return l.emit(lit, i, i+3), true
	}
	return l.emit(lit, i, i+1), true
}

func (l *lexer) quoted(i int) int {
	c := l.src[i]
	if e, ok := l.intro(i, hclsyntax.TokenQuotedLit); ok {
		return e
	}
	switch {
	case c == '"':
		l.st = l.st[:len(l.st)-1]
		return l.emit(hclsyntax.TokenCQuote, i, i+1)
	case c == '\n' || c == '\r':
		e := i
		for l.at(e) == '\n' || l.at(e) == '\r' {
			e++
		}
		return l.emit(hclsyntax.TokenQuotedNewline, i, e)
	case c == '\\':
		if i+1 < len(l.src) && l.at(i+1) != '\n' && l.at(i+1) != '\r' {
			return l.emit(hclsyntax.TokenQuotedLit, i, i+2)
		}
		return l.emit(hclsyntax.TokenInvalid, i, i+1)
	}
	return l.emit(hclsyntax.TokenQuotedLit, i, i+1)
}

func (l *lexer) heredoc(i int) int {
	f := l.top()
	if f.bol {
		s := i
		for s < len(l.src) && (l.src[s] == ' ' || l.src[s] == '\t') {
			s++
		}
		e := s + len(f.marker)
		if e < len(l.src) && string(l.src[s:e]) == f.marker {
			t := e
			for t < len(l.src) && (l.src[t] == ' ' || l.src[t] == '\t') {
				t++
			}
			if n := l.newline(t); n > 0 {
				l.st = l.st[:len(l.st)-1]
				l.emit(hclsyntax.TokenCHeredoc, i, t)
				return l.emit(hclsyntax.TokenNewline, t, t+n)
			}
		}
	}
	if e, ok := l.intro(i, hclsyntax.TokenStringLit); ok {
		return e
	}
	f.bol = l.src[i] == '\n'
	l.cr = l.cr || l.src[i] == '\r' && l.at(i+1) != '\n'
	return l.emit(hclsyntax.TokenStringLit, i, i+1)
}

func (l *lexer) template(i int) int {
	l.cr = l.cr || l.src[i] == '\r' && l.at(i+1) != '\n'
	if e, ok := l.intro(i, hclsyntax.TokenStringLit); ok {
		return e
	}
	return l.emit(hclsyntax.TokenStringLit, i, i+1)
}

func refLex(src []byte, top byte) *lexer {
	l := &lexer{src: src, st: []frame{{kind: top}}}
	for i := 0; i < len(src); {
		switch l.top().kind {
		case 'm', 'i':
			i = l.code(i)
		case 'q':
			i = l.quoted(i)
		case 'h':
			i = l.heredoc(i)
		default:
			i = l.template(i)
		}
	}
	return l
}

func check(src []byte, top byte) {
	sym.ObserveBytes("src", src)
	for _, c := range src {
		sym.Assume(c < 0x80)
	}
	var toks hclsyntax.Tokens
	if top == 't' {
		toks, _ = hclsyntax.LexTemplate(src, "t", lib.Start)
	} else {
		toks, _ = hclsyntax.LexConfig(src, "t", lib.Start)
	}
	l := refLex(src, top)
	if l.cr {
		return // see LoneCR
	}
	// adjacent pieces of literal text count as one
	var got []tok
	for _, t := range toks {
		n := len(got)
		lit := t.Type == hclsyntax.TokenQuotedLit || t.Type == hclsyntax.TokenStringLit
		if lit && n > 0 && got[n-1].ty == t.Type && got[n-1].eo == t.Range.Start.Byte {
			got[n-1].eo = t.Range.End.Byte
			continue
		}
		got = append(got, tok{t.Type, t.Range.Start.Byte, t.Range.End.Byte})
	}
	for _, g := range got {
		sym.ObserveInt("t", int(g.ty))
		sym.ObserveInt("e", g.eo)
	}
	want := append(l.out, tok{hclsyntax.TokenEOF, len(src), len(src)})
	n := len(want)
	if k := l.top().kind; k == 'q' || k == 'h' {
		// the text ends inside a string: what follows the last complete
		// piece is an error in any case
		sym.Cover("unfinished")
		n = len(l.out)
		for n > 0 && (want[n-1].ty == hclsyntax.TokenQuotedLit || want[n-1].ty == hclsyntax.TokenStringLit || want[n-1].ty == hclsyntax.TokenInvalid) {
			n--
		}
	} else {
		sym.Cover("complete")
		sym.Assert(len(got) == n, "the text has as many tokens as the lexical grammar gives")
	}
	for i := 0; i < n; i++ {
		sym.Assert(i < len(got), "no token of the lexical grammar is missing")
		sym.Assert(got[i].so == want[i].so && got[i].eo == want[i].eo, "a token extends as far as the lexical grammar says")
		sym.Assert(got[i].ty == want[i].ty, "a token has the kind the lexical grammar gives it")
	}
}

// LoneCR: a template with a carriage return that ends no line.
func LoneCR() {
	src := append([]byte("a\r"), sym.BytesIn("ab ${}\n", sym.Param("n", 5))...)
	toks, _ := hclsyntax.LexTemplate(src, "t", lib.Start)
	sym.ObserveBytes("src", src)
	sym.Assume(src[2] == '$' && src[3] == '{' && src[5] == '}')
	n := 0
	for _, t := range toks {
		if t.Type == hclsyntax.TokenTemplateInterp {
			n++
		}
	}
	sym.ObserveInt("n", n)
	sym.Assert(n > 0, "an interpolation after a lone carriage return is recognised")
}

// Any: arbitrary ASCII text.
func Any() {
	check(sym.Bytes(sym.Param("n", 3)), 'm')
}

var frames = []string{"", "a", "1", "1.", "1e", "<<", "<<A\n", "\"", "\"${", "\"%{", "\"$", "#", "/*", ".", "=", "{", "\"${{", "\"${\"", "<<A\nx${", "<<-A\n A", "/", "a-"}

// Alpha: longer text over the characters with a meaning, in every lexical context.
func Alpha() {
	src := []byte(frames[sym.Choice(len(frames))])
	src = append(src, sym.BytesIn("aA_1e.\"$%{}~<>-=!&|\n\r\\#/*; +@^'`", sym.Param("n", 3))...)
	check(src, 'm')
}

// Template: text of a bare template.
func Template() {
	src := []byte([]string{"", "${", "%{", "a$", "${\"", "${{", "${<<A\n"}[sym.Choice(7)])
	src = append(src, sym.BytesIn("aA1.\"$%{}~<=\n\r\\#/* ", sym.Param("n", 3))...)
	check(src, 't')
}

// Docs: documents using every construct, with one edit.
func Docs() {
	if sym.Choice(2) == 0 {
		check(lib.Mutate(append(append([]string(nil), lib.ExprDocs...), lib.ConfDocs...), "a1. \t\n\r\"$%{}<>-=#/*\\~e"), 'm')
	} else {
		check(lib.Mutate(lib.TmplDocs, "a1. \t\n\r\"$%{}<>-=#/*\\~e"), 't')
	}
}

// Ident: a text is a valid identifier if and only if it is read as one.
func Ident() {
	var src []byte
	switch sym.Choice(3) {
	case 0:
		src = sym.Bytes(sym.Param("n", 2))
	case 1:
		src = append(sym.Bytes(sym.Param("n", 2)-1), 'a')
	case 2:
		src = append([]byte{'a'}, sym.Bytes(sym.Param("n", 2)-1)...)
	}
	sym.ObserveBytes("src", src)
	toks, diags := hclsyntax.LexExpression(src, "t.hcl", lib.Start)
	want := !diags.HasErrors() && len(toks) == 2 && toks[0].Type == hclsyntax.TokenIdent && len(toks[0].Bytes) == len(src)
	sym.Assert(hclsyntax.ValidIdentifier(string(src)) == want, "exactly identifiers are valid")
	if want {
		sym.Cover("identifier")
	} else {
		sym.Cover("other")
	}
}
