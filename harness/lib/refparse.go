package lib

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
)

// ref is a plain recursive-descent recogniser of the expression grammar,
// written from the language specification. It renders what it accepts as a
// fully parenthesised term. Literal template text is not rendered.
type ref struct {
	toks hclsyntax.Tokens
	i    int
	nl   bool // newlines are significant
	bad  bool
}

const (
	tEOF = hclsyntax.TokenEOF
)

func (r *ref) at() int {
	i := r.i
	for i < len(r.toks)-1 {
		t := r.toks[i]
		if t.Type == hclsyntax.TokenNewline && !r.nl {
			i++
			continue
		}
		if t.Type == hclsyntax.TokenComment {
			if r.nl && len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n' {
				return i
			}
			i++
			continue
		}
		break
	}
	return i
}

func (r *ref) peek() hclsyntax.TokenType {
	t := r.toks[r.at()].Type
	if t == hclsyntax.TokenComment {
		return hclsyntax.TokenNewline
	}
	return t
}

func (r *ref) next() hclsyntax.Token {
	i := r.at()
	if i < len(r.toks)-1 {
		r.i = i + 1
	} else {
		r.i = i
	}
	return r.toks[i]
}

func (r *ref) kw(s string) bool {
	t := r.toks[r.at()]
	return t.Type == hclsyntax.TokenIdent && string(t.Bytes) == s
}

func (r *ref) want(ty hclsyntax.TokenType) {
	if r.bad {
		return
	}
	if r.peek() != ty {
		r.bad = true
		return
	}
	r.next()
}

func (r *ref) expr() string {
	if r.bad {
		return ""
	}
	c := r.binary(0)
	if r.bad || r.peek() != hclsyntax.TokenQuestion {
		return c
	}
	r.next()
	t := r.expr()
	r.want(hclsyntax.TokenColon)
	if r.bad {
		return ""
	}
	f := r.expr()
	return "C(" + c + "," + t + "," + f + ")"
}

// level of a binary operator, and its name
func binop(t hclsyntax.TokenType) (int, string) {
	switch t {
	case hclsyntax.TokenOr:
		return 0, "||"
	case hclsyntax.TokenAnd:
		return 1, "&&"
	case hclsyntax.TokenEqualOp:
		return 2, "=="
	case hclsyntax.TokenNotEqual:
		return 2, "!="
	case hclsyntax.TokenGreaterThan:
		return 3, ">"
	case hclsyntax.TokenGreaterThanEq:
		return 3, ">="
	case hclsyntax.TokenLessThan:
		return 3, "<"
	case hclsyntax.TokenLessThanEq:
		return 3, "<="
	case hclsyntax.TokenPlus:
		return 4, "+"
	case hclsyntax.TokenMinus:
		return 4, "-"
	case hclsyntax.TokenStar:
		return 5, "*"
	case hclsyntax.TokenSlash:
		return 5, "/"
	case hclsyntax.TokenPercent:
		return 5, "%"
	}
	return -1, ""
}

func (r *ref) binary(level int) string {
	l := r.term()
	for !r.bad {
		lv, name := binop(r.peek())
		if lv < level {
			break
		}
		r.next()
		l = "B(" + l + name + r.binary(lv+1) + ")"
	}
	return l
}

func (r *ref) term() string {
	if r.bad {
		return ""
	}
	switch r.peek() {
	case hclsyntax.TokenMinus:
		r.next()
		return "U(-" + r.term() + ")"
	case hclsyntax.TokenBang:
		r.next()
		return "U(!" + r.term() + ")"
	}
	return r.steps(r.primary())
}

func (r *ref) steps(s string) string {
	for !r.bad {
		switch r.peek() {
		case hclsyntax.TokenDot:
			r.next()
			switch r.peek() {
			case hclsyntax.TokenIdent:
				s = "A(" + s + "." + string(r.next().Bytes) + ")"
			case hclsyntax.TokenNumberLit:
				s = "I(" + s + "," + r.legacy() + ")"
			case hclsyntax.TokenStar:
				r.next()
				each := "_"
				for !r.bad && r.peek() == hclsyntax.TokenDot {
					r.next()
					switch r.peek() {
					case hclsyntax.TokenIdent:
						each = "A(" + each + "." + string(r.next().Bytes) + ")"
					case hclsyntax.TokenNumberLit:
						each = "I(" + each + "," + r.legacy() + ")"
					default:
						r.bad = true
					}
				}
				s = "S(" + s + ";" + each + ")"
			default:
				r.bad = true
			}
		case hclsyntax.TokenOBrack:
			r.next()
			if r.peek() == hclsyntax.TokenStar {
				r.next()
				r.want(hclsyntax.TokenCBrack)
				if r.bad {
					return ""
				}
				return "S(" + s + ";" + r.steps("_") + ")"
			}
			old := r.nl
			r.nl = false
			k := r.expr()
			r.want(hclsyntax.TokenCBrack)
			r.nl = old
			s = "I(" + s + "," + k + ")"
		default:
			return s
		}
	}
	return s
}

func (r *ref) legacy() string {
	t := r.next()
	for _, c := range t.Bytes {
		if c == '.' {
			r.bad = true
		}
	}
	return r.num(t.Bytes)
}

func (r *ref) num(b []byte) string {
	v, err := cty.ParseNumberVal(string(b))
	if err != nil {
		r.bad = true
		return ""
	}
	return Show(v)
}

func (r *ref) primary() string {
	old := r.nl
	switch r.peek() {
	case hclsyntax.TokenNumberLit:
		return r.num(r.next().Bytes)
	case hclsyntax.TokenIdent:
		name := string(r.next().Bytes)
		if r.peek() == hclsyntax.TokenOParen {
			r.next()
			r.nl = false
			s := "F(" + name
			for !r.bad && r.peek() != hclsyntax.TokenCParen {
				s += ";" + r.expr()
				if r.bad {
					break
				}
				switch r.peek() {
				case hclsyntax.TokenComma:
					r.next()
				case hclsyntax.TokenEllipsis:
					r.next()
					s += "..."
					if r.peek() != hclsyntax.TokenCParen {
						r.bad = true
					}
				case hclsyntax.TokenCParen:
				default:
					r.bad = true
				}
			}
			r.want(hclsyntax.TokenCParen)
			r.nl = old
			return s + ")"
		}
		switch name {
		case "true", "false", "null":
			return name
		}
		return "V(" + name + ")"
	case hclsyntax.TokenOParen:
		r.next()
		r.nl = false
		s := r.expr()
		r.want(hclsyntax.TokenCParen)
		r.nl = old
		return s
	case hclsyntax.TokenOQuote:
		r.next()
		s, wrap := r.template(hclsyntax.TokenCQuote)
		return tmplTerm(s, wrap)
	case hclsyntax.TokenOHeredoc:
		r.next()
		s, wrap := r.template(hclsyntax.TokenCHeredoc)
		return tmplTerm(s, wrap)
	case hclsyntax.TokenOBrack:
		r.next()
		r.nl = false
		if r.kw("for") {
			s := r.forExpr(hclsyntax.TokenCBrack)
			r.nl = old
			return s
		}
		s := "L("
		for !r.bad && r.peek() != hclsyntax.TokenCBrack {
			s += r.expr() + ";"
			if r.bad || r.peek() == hclsyntax.TokenCBrack {
				break
			}
			r.want(hclsyntax.TokenComma)
		}
		r.want(hclsyntax.TokenCBrack)
		r.nl = old
		return s + ")"
	case hclsyntax.TokenOBrace:
		r.next()
		r.nl = false
		if r.kw("for") {
			s := r.forExpr(hclsyntax.TokenCBrace)
			r.nl = old
			return s
		}
		r.nl = true
		s := "O("
		for !r.bad {
			for r.peek() == hclsyntax.TokenNewline {
				r.next()
			}
			if r.peek() == hclsyntax.TokenCBrace {
				break
			}
			s += "K(" + r.expr() + ")="
			if r.bad || r.peek() != hclsyntax.TokenEqual && r.peek() != hclsyntax.TokenColon {
				r.bad = true
				break
			}
			r.next()
			s += r.expr() + ";"
			if r.bad || r.peek() == hclsyntax.TokenCBrace {
				break
			}
			if r.peek() != hclsyntax.TokenComma && r.peek() != hclsyntax.TokenNewline {
				r.bad = true
				break
			}
			r.next()
		}
		r.want(hclsyntax.TokenCBrace)
		r.nl = old
		return s + ")"
	}
	r.bad = true
	return ""
}

func (r *ref) ident() string {
	if r.bad || r.peek() != hclsyntax.TokenIdent {
		r.bad = true
		return ""
	}
	return string(r.next().Bytes)
}

func (r *ref) forNames() string {
	a := r.ident()
	if !r.bad && r.peek() == hclsyntax.TokenComma {
		r.next()
		return a + "," + r.ident()
	}
	return "," + a
}

func (r *ref) forExpr(end hclsyntax.TokenType) string {
	r.next()
	s := "R(" + r.forNames() + ";"
	if r.bad || !r.kw("in") {
		r.bad = true
		return ""
	}
	r.next()
	s += r.expr() + ";"
	r.want(hclsyntax.TokenColon)
	if r.bad {
		return ""
	}
	k, v := "", r.expr()
	if !r.bad && r.peek() == hclsyntax.TokenFatArrow {
		r.next()
		k, v = v, r.expr()
	}
	if r.bad || (k != "") != (end == hclsyntax.TokenCBrace) {
		r.bad = true
		return ""
	}
	s += k + ";" + v + ";"
	if r.peek() == hclsyntax.TokenEllipsis {
		r.next()
		if k == "" {
			r.bad = true
		}
		s += "..."
	}
	if r.kw("if") {
		r.next()
		s += r.expr()
	}
	r.want(end)
	return s + ")"
}

func tmplTerm(s string, wrap bool) string {
	if wrap {
		return "W(" + s + ")"
	}
	return "T(" + s + ")"
}

// badEscape reports whether a quoted literal has an undefined or incomplete escape.
func badEscape(b []byte) bool {
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' {
			continue
		}
		i++
		if i >= len(b) {
			return true
		}
		switch b[i] {
		case 'n', 'r', 't', '"', '\\':
		case 'u', 'U':
			n := 4
			if b[i] == 'U' {
				n = 8
			}
			if i+n >= len(b) {
				return true
			}
			v := uint64(0)
			for j := 1; j <= n; j++ {
				h, ok := Hex(b[i+j])
				if !ok {
					return true
				}
				v = v*16 + uint64(h)
			}
			if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
				return true
			}
			i += n
		default:
			return true
		}
	}
	return false
}

// Hex returns the value of a hexadecimal digit.
func Hex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

type tpart struct {
	kind string // lit, interp, if, else, endif, for, endfor
	s    string
}

// template reads up to and including the end token.
func (r *ref) template(end hclsyntax.TokenType) (string, bool) {
	var parts []tpart
	old := r.nl
	for !r.bad {
		if r.toks[r.i].Type == end {
			if end != tEOF {
				r.i++
			}
			break
		}
		t := r.toks[r.i]
		switch t.Type {
		case hclsyntax.TokenQuotedLit, hclsyntax.TokenStringLit:
			r.i++
			if t.Type == hclsyntax.TokenQuotedLit && badEscape(t.Bytes) {
				r.bad = true
			}
			parts = append(parts, tpart{"lit", ""})
		case hclsyntax.TokenTemplateInterp:
			r.i++
			r.nl = false
			parts = append(parts, tpart{"interp", r.expr()})
			r.want(hclsyntax.TokenTemplateSeqEnd)
			r.nl = old
		case hclsyntax.TokenTemplateControl:
			r.i++
			r.nl = false
			k := r.ident()
			switch k {
			case "if":
				parts = append(parts, tpart{k, r.expr()})
			case "else", "endif", "endfor":
				parts = append(parts, tpart{k, ""})
			case "for":
				s := r.forNames() + ";"
				if r.bad || !r.kw("in") {
					r.bad = true
					break
				}
				r.next()
				parts = append(parts, tpart{k, s + r.expr() + ";"})
			default:
				r.bad = true
			}
			r.want(hclsyntax.TokenTemplateSeqEnd)
			r.nl = old
		default:
			r.bad = true
		}
	}
	if r.bad {
		return "", false
	}
	if len(parts) == 1 && parts[0].kind == "interp" {
		return parts[0].s, true
	}
	i := 0
	s := r.tmplSeq(parts, &i)
	if i != len(parts) {
		r.bad = true
	}
	return s, false
}

// tmplSeq renders parts up to a closing directive, which it leaves.
func (r *ref) tmplSeq(parts []tpart, i *int) string {
	s := ""
	for *i < len(parts) && !r.bad {
		p := parts[*i]
		switch p.kind {
		case "lit":
			*i++
		case "interp":
			*i++
			s += p.s + ";"
		case "if":
			*i++
			a, b := r.tmplSeq(parts, i), ""
			if *i < len(parts) && parts[*i].kind == "else" {
				*i++
				b = r.tmplSeq(parts, i)
			}
			if *i >= len(parts) || parts[*i].kind != "endif" {
				r.bad = true
				return ""
			}
			*i++
			s += "C(" + p.s + ",T(" + a + "),T(" + b + "));"
		case "for":
			*i++
			a := r.tmplSeq(parts, i)
			if *i >= len(parts) || parts[*i].kind != "endfor" {
				r.bad = true
				return ""
			}
			*i++
			s += "J(R(" + p.s + ";T(" + a + ");));"
		default:
			return s
		}
	}
	return s
}

// RefExpr decides whether the tokens form an expression and renders it.
func RefExpr(toks hclsyntax.Tokens) (string, bool) {
	if HasInvalid(toks) {
		return "", false
	}
	r := &ref{toks: toks}
	s := r.expr()
	if !r.bad && r.peek() != tEOF {
		r.bad = true
	}
	return s, !r.bad
}

// RefTemplate decides whether the tokens form a template and renders it.
func RefTemplate(toks hclsyntax.Tokens) (string, bool) {
	if HasInvalid(toks) {
		return "", false
	}
	r := &ref{toks: toks}
	s, wrap := r.template(tEOF)
	return tmplTerm(s, wrap), !r.bad
}

// RefBody decides whether the tokens form a body and renders it.
func RefBody(toks hclsyntax.Tokens) (string, bool) {
	if HasInvalid(toks) {
		return "", false
	}
	r := &ref{toks: toks, nl: true}
	s := r.body(tEOF)
	return s, !r.bad
}

func (r *ref) body(end hclsyntax.TokenType) string {
	s := ""
	seen := map[string]bool{}
	for !r.bad {
		if r.peek() == hclsyntax.TokenNewline {
			r.next()
			continue
		}
		if r.peek() == end {
			r.next()
			break
		}
		name := r.ident()
		if r.bad {
			break
		}
		if r.peek() == hclsyntax.TokenEqual {
			r.next()
			if seen[name] {
				r.bad = true
			}
			seen[name] = true
			s += "attr(" + name + "=" + r.expr() + ")"
			r.eol()
			continue
		}
		s += "block(" + name
		for !r.bad && r.peek() != hclsyntax.TokenOBrace {
			switch r.peek() {
			case hclsyntax.TokenIdent:
				s += "," + string(r.next().Bytes)
			case hclsyntax.TokenOQuote:
				r.next()
				for r.toks[r.i].Type == hclsyntax.TokenQuotedLit {
					if badEscape(r.toks[r.i].Bytes) {
						r.bad = true
					}
					r.i++
				}
				if r.toks[r.i].Type != hclsyntax.TokenCQuote {
					r.bad = true
				}
				r.i++
				s += ",\"\""
			default:
				r.bad = true
			}
		}
		if r.bad {
			break
		}
		r.next()
		switch r.peek() {
		case hclsyntax.TokenNewline, hclsyntax.TokenCBrace:
			s += "{" + r.body(hclsyntax.TokenCBrace) + "})"
		default: // single argument on the same line
			an := r.ident()
			r.want(hclsyntax.TokenEqual)
			s += "{attr(" + an + "=" + r.expr() + ")})"
			r.want(hclsyntax.TokenCBrace)
		}
		r.eol()
	}
	return s
}

// eol requires the end of a line or of the file.
func (r *ref) eol() {
	if r.bad {
		return
	}
	switch r.peek() {
	case hclsyntax.TokenNewline:
		r.next()
	case tEOF:
	default:
		r.bad = true
	}
}

// Dump renders a parsed expression in the form used by RefExpr.
func Dump(e hcl.Expression) string {
	switch e := e.(type) {
	case *hclsyntax.LiteralValueExpr:
		if e.Val.Type() == cty.String {
			return ""
		}
		return Show(e.Val)
	case *hclsyntax.ScopeTraversalExpr:
		s := "V(" + e.Traversal.RootName() + ")"
		return dumpSteps(s, e.Traversal[1:])
	case *hclsyntax.RelativeTraversalExpr:
		return dumpSteps(Dump(e.Source), e.Traversal)
	case *hclsyntax.FunctionCallExpr:
		s := "F(" + e.Name
		for _, a := range e.Args {
			s += ";" + Dump(a)
		}
		if e.ExpandFinal {
			s += "..."
		}
		return s + ")"
	case *hclsyntax.ConditionalExpr:
		return "C(" + Dump(e.Condition) + "," + Dump(e.TrueResult) + "," + Dump(e.FalseResult) + ")"
	case *hclsyntax.IndexExpr:
		return "I(" + Dump(e.Collection) + "," + Dump(e.Key) + ")"
	case *hclsyntax.TupleConsExpr:
		s := "L("
		for _, x := range e.Exprs {
			s += Dump(x) + ";"
		}
		return s + ")"
	case *hclsyntax.ObjectConsExpr:
		s := "O("
		for _, x := range e.Items {
			s += Dump(x.KeyExpr) + "=" + Dump(x.ValueExpr) + ";"
		}
		return s + ")"
	case *hclsyntax.ObjectConsKeyExpr:
		return "K(" + Dump(e.Wrapped) + ")"
	case *hclsyntax.ForExpr:
		s := "R(" + e.KeyVar + "," + e.ValVar + ";" + Dump(e.CollExpr) + ";"
		if e.KeyExpr != nil {
			s += Dump(e.KeyExpr)
		}
		s += ";" + Dump(e.ValExpr) + ";"
		if e.Group {
			s += "..."
		}
		if e.CondExpr != nil {
			s += Dump(e.CondExpr)
		}
		return s + ")"
	case *hclsyntax.SplatExpr:
		return "S(" + Dump(e.Source) + ";" + Dump(e.Each) + ")"
	case *hclsyntax.AnonSymbolExpr:
		return "_"
	case *hclsyntax.TemplateExpr:
		s := ""
		for _, x := range e.Parts {
			if d := Dump(x); d != "" {
				s += d + ";"
			}
		}
		return "T(" + s + ")"
	case *hclsyntax.TemplateWrapExpr:
		return "W(" + Dump(e.Wrapped) + ")"
	case *hclsyntax.TemplateJoinExpr:
		return "J(" + Dump(e.Tuple) + ")"
	case *hclsyntax.BinaryOpExpr:
		return "B(" + Dump(e.LHS) + opName(e.Op) + Dump(e.RHS) + ")"
	case *hclsyntax.UnaryOpExpr:
		if e.Op == hclsyntax.OpNegate {
			return "U(-" + Dump(e.Val) + ")"
		}
		if e.Op == hclsyntax.OpLogicalNot {
			return "U(!" + Dump(e.Val) + ")"
		}
	}
	return "?"
}

func dumpSteps(s string, t hcl.Traversal) string {
	for _, st := range t {
		switch st := st.(type) {
		case hcl.TraverseAttr:
			s = "A(" + s + "." + st.Name + ")"
		case hcl.TraverseIndex:
			k := "T()"
			if st.Key.Type() != cty.String {
				k = Show(st.Key)
			}
			s = "I(" + s + "," + k + ")"
		default:
			s = "?"
		}
	}
	return s
}

func opName(o *hclsyntax.Operation) string {
	switch o {
	case hclsyntax.OpLogicalOr:
		return "||"
	case hclsyntax.OpLogicalAnd:
		return "&&"
	case hclsyntax.OpEqual:
		return "=="
	case hclsyntax.OpNotEqual:
		return "!="
	case hclsyntax.OpGreaterThan:
		return ">"
	case hclsyntax.OpGreaterThanOrEqual:
		return ">="
	case hclsyntax.OpLessThan:
		return "<"
	case hclsyntax.OpLessThanOrEqual:
		return "<="
	case hclsyntax.OpAdd:
		return "+"
	case hclsyntax.OpSubtract:
		return "-"
	case hclsyntax.OpMultiply:
		return "*"
	case hclsyntax.OpDivide:
		return "/"
	case hclsyntax.OpModulo:
		return "%"
	}
	return "?"
}

// DumpBody checks a body against the rendering of RefBody: attributes and
// blocks are merged in source order.
func DumpBody(b *hclsyntax.Body) string {
	type item struct {
		pos int
		s   string
	}
	var items []item
	for _, a := range b.Attributes {
		items = append(items, item{a.SrcRange.Start.Byte, "attr(" + a.Name + "=" + Dump(a.Expr) + ")"})
	}
	for _, bl := range b.Blocks {
		s := "block(" + bl.Type
		for i, l := range bl.Labels {
			if bl.LabelRanges[i].End.Byte-bl.LabelRanges[i].Start.Byte == len(l) {
				s += "," + l
			} else {
				s += ",\"\""
			}
		}
		items = append(items, item{bl.TypeRange.Start.Byte, s + "{" + DumpBody(bl.Body) + "})"})
	}
	s := ""
	last := -1
	for range items {
		best := -1
		for j, it := range items {
			if it.pos > last && (best < 0 || it.pos < items[best].pos) {
				best = j
			}
		}
		if best < 0 {
			return "?dup"
		}
		last = items[best].pos
		s += items[best].s
	}
	return s
}
