package hrange

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

const hi, lo = "\x1b[1;4m", "\x1b[0m"

func writeDiag(d *hcl.Diagnostic, files map[string]*hcl.File, width uint, color bool) string {
	var buf bytes.Buffer
	w := hcl.NewDiagnosticTextWriter(&buf, files, width, color)
	var err error
	if sym.Param("many", 0) != 0 {
		err = w.WriteDiagnostics(hcl.Diagnostics{d})
	} else {
		err = w.WriteDiagnostic(d)
	}
	sym.Assert(err == nil, "diagnostics can be written")
	return buf.String()
}

// Snippet: the lines shown and highlighted for any subject and context in any
// small file.
func Snippet() {
	n := sym.Param("n", 5)
	src := make([]byte, n)
	for i := range src {
		src[i] = sym.ByteIn("a \n")
	}
	sym.ObserveBytes("src", src)
	rng := func() hcl.Range {
		s := sym.Choice(n + 1)
		e := s + sym.Choice(n+1-s)
		return hcl.Range{Filename: "f", Start: lib.PosOf(src, s), End: lib.PosOf(src, e)}
	}
	d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "Sum", Detail: "Det"}
	r := rng()
	d.Subject = &r
	snip := r
	if sym.Bool() {
		c := rng()
		sym.Assume(lib.Covers(c, r) && c != r)
		d.Context = &c
		sym.ObserveInt("cs", c.Start.Byte)
		sym.ObserveInt("ce", c.End.Byte)
	}
	sym.ObserveInt("s", r.Start.Byte)
	sym.ObserveInt("e", r.End.Byte)
	out := writeDiag(d, map[string]*hcl.File{"f": {Bytes: src}}, 0, true)
	sym.ObserveStr("out", out)

	// the bytes to be shown, and to be highlighted
	marked := make([]bool, n+2)
	shown := make([]bool, n+2)
	mark := func(m []bool, r hcl.Range) {
		for i := r.Start.Byte; i < r.End.Byte; i++ {
			m[i] = true
		}
		if r.Start.Byte == r.End.Byte {
			m[r.Start.Byte] = true
		}
	}
	mark(marked, snip)
	mark(shown, snip)
	if d.Context != nil && d.Context.Start.Byte != d.Context.End.Byte {
		a, b := *d.Context, snip
		if b.Start.Byte == b.End.Byte {
			// only the context is shown around an empty subject
			b = a
			for i := range shown {
				shown[i] = false
			}
		}
		if b.Start.Byte < a.Start.Byte {
			a.Start = b.Start
		}
		if b.End.Byte > a.End.Byte {
			a.End = b.End
		}
		mark(shown, a)
	}

	head := "\x1b[31mError" + lo + ": Sum\n\n  on f line " + strconv.Itoa(r.Start.Line) + ":\n"
	sym.Assert(strings.HasPrefix(out, head), "header")
	rest := out[len(head):]
	tail := "\nDet\n\n"
	sym.Assert(strings.HasSuffix(rest, tail), "detail")
	rest = rest[:len(rest)-len(tail)]
	line := 0
	for from := 0; from < n; {
		line++
		to := from
		for to < n && src[to] != '\n' {
			to++
		}
		share, near := false, false
		for i := from; i < to; i++ {
			share = share || shown[i]
		}
		near = share || to < len(shown) && shown[to] || from > 0 && shown[from-1]
		plain := leftPad(line) + ": " + string(src[from:to]) + "\n"
		want := ""
		inHi := false
		for i := from; i < to; i++ {
			if marked[i] != inHi {
				if inHi {
					want += lo
				} else {
					want += hi
				}
				inHi = marked[i]
			}
			want += string(src[i : i+1])
		}
		if inHi {
			want += lo
		}
		want = leftPad(line) + ": " + want + "\n"
		if share {
			sym.Cover("shown")
			sym.Assert(strings.HasPrefix(rest, want), "an affected line is shown with the subject highlighted")
			rest = rest[len(want):]
		} else if near && from < to && strings.HasPrefix(rest, plain) {
			// a line touched by the range only at its edge may be shown
			rest = rest[len(plain):]
		} else if near && from < to && strings.HasPrefix(rest, want) {
			rest = rest[len(want):]
		}
		from = to + 1
	}
	sym.Assert(rest == "", "nothing but affected lines is shown")
}

func leftPad(n int) string {
	s := strconv.Itoa(n)
	for len(s) < 4 {
		s = " " + s
	}
	return s
}

// Arbitrary: ranges with any byte offsets, any severity, missing files.
func Arbitrary() {
	src := []byte("ab\nc")
	bad := func() *hcl.Range {
		if sym.Bool() {
			return nil
		}
		return &hcl.Range{Filename: []string{"f", "g"}[sym.Choice(2)],
			Start: hcl.Pos{Byte: sym.Int(), Line: -1, Column: 1},
			End:   hcl.Pos{Byte: sym.Int(), Line: 1, Column: 1}}
	}
	// text that would mean something to a formatter
	pct := string([]byte{sym.ByteIn("%x"), sym.ByteIn("sd%"), sym.ByteIn("%x")})
	d := &hcl.Diagnostic{Severity: hcl.DiagnosticSeverity(sym.Choice(3)), Summary: "Sum" + pct, Detail: "Det" + pct, Subject: bad(), Context: bad()}
	var files map[string]*hcl.File
	switch sym.Choice(3) {
	case 1:
		files = map[string]*hcl.File{"f": {Bytes: src}, "g": nil}
	case 2:
		files = map[string]*hcl.File{"f": {}, "g": {Bytes: src, Nav: "x"}}
	}
	out := writeDiag(d, files, 0, sym.Bool())
	sym.Assert(strings.Contains(out, "Sum"+pct) && strings.Contains(out, "\nDet"+pct+"\n"), "summary and detail are written")
	sym.Assert(strings.Contains(d.Error(), "Sum"+pct), "an error has the summary")
	sym.Assert(d.Error() != "" && hcl.Diagnostics{d}.Error() != "", "diagnostics are errors")
	sym.Assert(hcl.Diagnostics{d}.HasErrors() == (d.Severity == hcl.DiagError), "errors are recognised")
}

// Wrapped: a wrapped detail keeps its words.
func Wrapped() {
	n := sym.Param("n", 6)
	detail := sym.BytesIn("a% \n", n)
	sym.ObserveBytes("detail", detail)
	width := 1 + sym.Choice(sym.Param("w", 5))
	sym.Assume(detail[0] == 'a' && detail[n-1] == 'a')
	d := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "Sum", Detail: string(detail)}
	out := writeDiag(d, nil, uint(width), false)
	sym.ObserveStr("out", out)
	head := "Warning: Sum\n\n"
	sym.Assert(strings.HasPrefix(out, head), "header")
	body := out[len(head):]
	sym.Assert(strings.Join(strings.Fields(body), " ") == strings.Join(strings.Fields(string(detail)), " "), "the words of the detail are kept in order")
}

// Values: the values of variables referenced by the expression are described.
func Values() {
	vals := []cty.Value{
		cty.NullVal(cty.String), cty.UnknownVal(cty.String), cty.DynamicVal, cty.True, cty.False,
		cty.NumberIntVal(12), cty.StringVal("s"), cty.ListValEmpty(cty.String), cty.ListVal([]cty.Value{cty.UnknownVal(cty.String)}),
		cty.TupleVal([]cty.Value{cty.True, cty.True}), cty.EmptyObjectVal, cty.ObjectVal(map[string]cty.Value{"q": cty.True}),
		cty.ObjectVal(map[string]cty.Value{"q": cty.True, "r": cty.NullVal(cty.DynamicPseudoType)}),
		cty.MapVal(map[string]cty.Value{"k": cty.StringVal("v")}), cty.SetVal([]cty.Value{cty.StringVal("v")}),
		cty.SetVal([]cty.Value{cty.UnknownVal(cty.String)}), cty.NullVal(cty.DynamicPseudoType),
	}
	texts := []string{
		"null", "", "", "true", "false", "12", "\"s\"", "empty list of string", "list of string with 1 element",
		"tuple with 2 elements", "object with no attributes", "object with 1 attribute \"q\"",
		"object with 2 attributes", "map of string with 1 element", "set of string with 1 element",
		"set of string with 1 element", "null",
	}
	i, j := sym.Choice(len(vals)), sym.Choice(len(vals))
	src := []byte("a + b[\"" + string(sym.ByteIn("kq")) + "\"] + " + string(sym.ByteIn("ab")))
	sym.ObserveBytes("src", src)
	e, diags := hclsyntax.ParseExpression(src, "f", lib.Start)
	sym.Assert(!diags.HasErrors(), "parses")
	ctx := (&hcl.EvalContext{Variables: map[string]cty.Value{"b": vals[j]}}).NewChild()
	ctx.Variables = map[string]cty.Value{"a": vals[i]}
	r := e.Range()
	d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "Sum", Detail: "Det", Subject: &r, Expression: e, EvalContext: ctx}
	out := writeDiag(d, nil, 0, false)
	sym.ObserveStr("out", out)
	has := strings.Contains(out, "with a as "+texts[i]) || strings.Contains(out, "with a set to null")
	sym.Assert(has == (texts[i] != ""), "the known value of a variable is described")
	sym.Assert(strings.Contains(out, " a set to null") == (texts[i] == "null"), "a null value is described as such")
	sym.Assert(strings.Count(out, " a as ")+strings.Count(out, " a set to ") <= 1, "a variable is described once")
	sym.Assert(strings.HasSuffix(out, "Det\n\n"), "detail comes last")
}
