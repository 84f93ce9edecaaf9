package hwrite

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// row is a line of a document: its tokens with the blanks the layout puts
// before each of them, and where the assigned value and the comment begin.
type row struct {
	toks    []string
	gaps    []int  // blanks before each token in the layout
	need    []bool // whether a blank is needed before it
	assign  int    // index of the equals sign of a whole assignment, or 0
	comment int    // index of a comment at the end of the line, or 0
}

func (r *row) add(tok string, gap int, need bool) {
	r.toks = append(r.toks, tok)
	r.gaps = append(r.gaps, gap)
	r.need = append(r.need, need)
}

// expr adds a token sequence: a blank before a token where it is written so;
// the blank is needed if it is doubled.
func (r *row) expr(s string) {
	tok, gap := "", 1
	flush := func() {
		if tok != "" {
			r.add(tok, min(gap, 1), gap > 1)
		}
		tok, gap = "", 0
	}
	for _, c := range []byte(s) {
		switch c {
		case '~':
			flush()
		case ' ':
			if tok != "" {
				flush()
			}
			gap++
		default:
			if c == '_' {
				c = ' '
			}
			tok += string([]byte{c})
		}
	}
	flush()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (r *row) width(to int) int {
	n := 0
	for i := 0; i < to; i++ {
		n += r.gaps[i] + len(r.toks[i])
	}
	return n
}

type layout struct {
	rows []*row
	left int
}

func (l *layout) row(depth int) *row {
	r := &row{}
	l.rows = append(l.rows, r)
	l.left--
	r.gaps = []int{2 * depth}
	return r
}

// first sets the first token of a row.
func (r *row) first(tok string) {
	r.toks = []string{tok}
	r.need = []bool{false}
}

// values are single-line expressions in their layout: ~ separates tokens
// without a blank, a double blank is a needed one, and _ stands for a blank in
// a string.
var values = []string{
	"1",
	"\"s__p\"",
	"[~1~, 2~]",
	"-~a + -~1 * (~b  - 1~) - 2",
	"{ k = 1 }",
	"f~(~x~, y~...~)~[~0~]~.~z",
	"x ? y : null",
	"[~for  v  in  [~1~] : -~v  if  v > 0~]",
	"\"${~a~}_${~b~[~0~]~}%{~if  c~}_%{~else~}%{~endif~}\"",
	"{~}",
	"x~[~*~]~.~y && a || b == c",
}

func (l *layout) name() string {
	return []string{"", "bc", "e"}[sym.Choice(3)] + string([]byte{sym.ByteIn("xyz")})
}

func (l *layout) comment(r *row) {
	if sym.Param("comments", 1) == 1 && sym.Choice(2) == 1 {
		r.comment = len(r.toks)
		r.add([]string{"# ", "// "}[sym.Choice(2)]+string([]byte{sym.ByteIn("c={]#\"")}), 1, false)
	}
}

// body chooses lines.
func (l *layout) body(depth int) {
	for l.left > 0 {
		switch sym.Choice(sym.Param("kinds", 9)) {
		case 0:
			return
		case 1: // an attribute on a line
			r := l.row(depth)
			r.first(l.name())
			r.assign = 1
			r.add("=", 1, false)
			if sym.Param("values", 0) == 1 {
				r.expr(values[sym.Choice(len(values))])
			} else {
				r.add([]string{"1", "xyz"}[sym.Choice(2)], 1, false)
			}
			l.comment(r)
		case 2: // a block
			r := l.row(depth)
			r.first("b")
			if sym.Choice(2) == 1 {
				r.expr("l")
				r.need[1] = true
				r.expr("\"m\"")
			}
			r.expr("{")
			l.comment(r)
			if depth < 2 {
				l.body(depth + 1)
			}
			r = l.row(depth)
			r.first("}")
			l.comment(r)
		case 3: // an empty line
			r := l.row(0)
			r.first("")
		case 4: // a comment
			r := l.row(depth)
			r.first([]string{"# x  ", "//"}[sym.Choice(2)] + string([]byte{sym.ByteIn("c={]#\"")}))
		case 5: // an attribute with a sequence of several lines
			r := l.row(depth)
			r.first("s")
			r.expr("= [")
			l.comment(r)
			for i := sym.Choice(3); i > 0; i-- {
				e := l.row(depth + 1)
				e.first("2")
				e.expr("~,")
				e.gaps[1] = 0
				l.comment(e)
			}
			r = l.row(depth)
			r.first("]")
		case 6: // an attribute with an object of several lines
			r := l.row(depth)
			r.first("o")
			r.expr("= {")
			for i := sym.Choice(3); i > 0; i-- {
				e := l.row(depth + 1)
				e.first(l.name())
				e.assign = 1
				e.expr("= 1")
				l.comment(e)
			}
			r = l.row(depth)
			r.first("}")
		case 7: // a block on one line
			r := l.row(depth)
			r.first("b")
			if sym.Choice(2) == 0 {
				r.expr("{~}")
			} else {
				r.expr("{ a = 1 }")
			}
			l.comment(r)
		case 8: // a heredoc, which stays as it is
			r := l.row(depth)
			r.first(l.name())
			r.assign = 1
			r.add("=", 1, false)
			r.add("<<A\n  t"+string([]byte{sym.ByteIn(" {=#")})+"\nA", 1, false)
		}
	}
}

// align sets the blanks before equals signs and comments: those of
// neighbouring lines are in a column.
func (l *layout) align() {
	for from := 0; from < len(l.rows); from++ {
		to, widest := from, 0
		for to < len(l.rows) && l.rows[to].assign > 0 {
			if w := l.rows[to].width(1); w > widest {
				widest = w
			}
			to++
		}
		for i := from; i < to; i++ {
			l.rows[i].gaps[1] = widest - l.rows[i].width(1) + 1
		}
		if to > from {
			from = to - 1
		}
	}
	for from := 0; from < len(l.rows); from++ {
		to, widest := from, 0
		for to < len(l.rows) && l.rows[to].comment > 0 {
			if w := l.rows[to].width(l.rows[to].comment); w > widest {
				widest = w
			}
			to++
		}
		for i := from; i < to; i++ {
			r := l.rows[i]
			r.gaps[r.comment] = widest - r.width(r.comment) + 1
		}
		if to > from {
			from = to - 1
		}
	}
}

const blanks = "                                        "

// Layout: documents with any blanks get the layout.
func Layout() {
	l := &layout{left: sym.Param("n", 3)}
	l.body(0)
	l.align()
	mode := sym.Choice(4)
	gaps := 0
	for _, r := range l.rows {
		gaps += len(r.toks)
	}
	wild := -1
	if mode == 3 {
		wild = sym.IntRange(0, gaps-1)
	}
	var src, want []byte
	i := 0
	for _, r := range l.rows {
		for t, tok := range r.toks {
			want = append(want, blanks[:r.gaps[t]]...)
			sep := ""
			switch {
			case mode == 1:
				sep = "  "
			case mode == 2:
				sep = blanks[:r.gaps[t]]
			case mode == 3 && i == wild:
				sep = []string{"", " ", "   ", "\t"}[sym.Choice(4)]
			case mode == 3:
				sep = blanks[:r.gaps[t]]
			}
			if sep == "" && r.need[t] {
				sep = " "
			}
			src = append(src, sep...)
			src = append(src, tok...)
			want = append(want, tok...)
			i++
		}
		src = append(src, '\n')
		want = append(want, '\n')
	}
	sym.ObserveBytes("src", src)
	_, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.ObserveBool("valid", !diags.HasErrors())
	got := hclwrite.Format(src)
	sym.ObserveBytes("formatted", got)
	sym.ObserveBytes("want", want)
	sym.Assert(string(got) == string(want), "the layout depends on tokens and lines only")
	sym.Cover("layout")
}
