// Package hjson holds the harnesses about the JSON syntax.
package hjson

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

const alpha = "{}[],:\"\\ \nan1-.e=/\x01\x80u0E+"

var frames = [][2]string{
	{"", ""},
	{"{", "}"},
	{"{", ""},
	{"{\"a\"", "}"},
	{"{\"a\":", "}"},
	{"{\"a\":1", "}"},
	{"{\"a\":1", "\"b\":2}"},
	{"{\"a\":\"", "\"}"},
	{"{\"", "\":1}"},
	{"{\"a\":[", "]}"},
	{"{\"a\":[1", "2]}"},
	{"{\"a\":[1,{\"b\"", "}]}"},
	{"[", "]"},
	{"[{\"a\":1}", "]"},
	{"{\"a\":{\"b\":[", "]},\"c\":1}"},
	{"{\"a\":nul", "}"},
	{"{\"a\":\"\\u00", "\"}"},
	{"{\"a\":1", ""},
	{"{\"a\":{", "}, \"b\"={}}"},
	{"{}", ""},
}

var docs = []string{
	"{\"a\": 1, \"b\": [true, null, {\"c\": \"x\\n\\\"\"}],\n \"d\": {\"e\": {}}}",
	"[{\"a\": \"${b}\"}, {\"a\": -1.5e2}]\n",
	"{\"a\": {\"b\": {\"c\": [{}, {\"d\": false}]}}, \"//\": \"x\"}",
	"\t{\r\n\t\"a\":\t[ [ ], [\"\\\\\"] ]\r\n}",
	"{\"a\": [15E1, 1e-7, 0.5E+3], \"b\": \"\\b\\f\\/\\t\\r\\u00E9\\ud83d\\uDE00\"}",
}

// positions of the reference: a tab counts as two columns and a carriage
// return as none.
func posOf(src []byte, ofs int) hcl.Pos {
	p := lib.Start
	for i := 0; i < ofs; i++ {
		switch src[i] {
		case '\n':
			p.Line++
			p.Column = 1
		case '\t':
			p.Column += 2
		case '\r':
		default:
			p.Column++
		}
	}
	p.Byte = ofs
	return p
}

func rangeOK(src []byte, r hcl.Range, what string) {
	sym.Assert(r.Filename == "t.json", what+": filename")
	sym.Assert(r.Start.Byte >= 0 && r.Start.Byte <= r.End.Byte && r.End.Byte <= len(src), what+": range inside the file")
}

// exact asserts that a range starts and ends where its bytes are.
func exact(src []byte, r hcl.Range, what string) {
	rangeOK(src, r, what)
	for _, c := range src {
		if c >= 0x80 {
			return
		}
	}
	sym.Assert(r.Start == posOf(src, r.Start.Byte), what+": start line and column")
	sym.Assert(r.End == posOf(src, r.End.Byte), what+": end line and column")
}

func diagsOK(src []byte, diags hcl.Diagnostics, what string) {
	for _, d := range diags {
		sym.Assert(d.Severity == hcl.DiagError && d.Summary != "" && d.Subject != nil, what+": complete")
		rangeOK(src, *d.Subject, what+" subject ("+d.Summary+")")
		if d.Context != nil {
			rangeOK(src, *d.Context, what+" context ("+d.Summary+")")
		}
	}
}

var schema = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "d", LabelNames: []string{"x"}}},
}

var attrOfC = &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "c"}}}

func names(as hcl.Attributes) []string {
	var ns []string
	for n := range as {
		ns = append(ns, n)
	}
	for i := 1; i < len(ns); i++ {
		for j := i; j > 0 && ns[j] < ns[j-1]; j-- {
			ns[j], ns[j-1] = ns[j-1], ns[j]
		}
	}
	return ns
}

// inspect applies every read-only operation to a body.
func inspect(src []byte, b hcl.Body, depth int) {
	rangeOK(src, b.MissingItemRange(), "missing item range")
	c, rem, d := b.PartialContent(schema)
	diagsOK(src, d, "partial content")
	rangeOK(src, c.MissingItemRange, "content missing item range")
	_, d = rem.Content(attrOfC)
	diagsOK(src, d, "content")
	_, d = b.Content(schema)
	diagsOK(src, d, "content")
	rem.JustAttributes()
	attrs, d := b.JustAttributes()
	diagsOK(src, d, "just attributes")
	for _, n := range names(attrs) {
		a := attrs[n]
		exact(src, a.NameRange, "attribute name")
		rangeOK(src, a.Range, "attribute")
		rangeOK(src, a.Expr.Range(), "expression")
		rangeOK(src, a.Expr.StartRange(), "expression start")
		if src[a.Expr.StartRange().Start.Byte] != '\\' {
			exact(src, a.Expr.Range(), "expression")
		}
		sym.Assert(lib.Covers(a.Range, a.NameRange) && lib.Covers(a.Range, a.Expr.Range()), "an attribute covers its name and value")
		if depth == 0 {
			lib.Inspect(a.Expr)
		}
	}
	for _, bl := range c.Blocks {
		exact(src, bl.DefRange, "block header")
		exact(src, bl.TypeRange, "block type")
		for _, lr := range bl.LabelRanges {
			exact(src, lr, "label")
		}
		if depth > 0 {
			inspect(src, bl.Body, depth-1)
		}
	}
}

func check(src []byte) {
	sym.ObserveBytes("src", src)
	f, diags := json.Parse(src, "t.json")
	sym.ObserveInt("diags", len(diags))
	diagsOK(src, diags, "diagnostic")
	ref := lib.RefJSON(src)
	if ref != nil && (ref.Kind == '{' || ref.Kind == '[') {
		sym.Cover("valid")
		sym.Assert(!diags.HasErrors(), "a valid document is accepted")
	} else {
		sym.Cover("invalid")
		sym.Assert(diags.HasErrors(), "an invalid document is reported")
	}
	sym.Assert(f != nil && f.Body != nil && len(f.Bytes) == len(src), "a file is returned")
	inspect(src, f.Body, sym.Param("depth", 1))
}

// Parse: frames around free characters.
func Parse() {
	fr := frames[sym.Choice(len(frames))]
	src := append([]byte(fr[0]), sym.BytesIn(alpha, sym.Param("n", 2))...)
	check(append(src, fr[1]...))
}

// Docs: documents with one edit.
func Docs() { check(lib.Mutate(docs, alpha)) }

// Raw: any bytes.
func Raw() {
	n := sym.Param("n", 2)
	src := sym.Bytes(n)
	check(src)
}

var uni = []string{"é", "é", "؀", "日", "\U0001F468‍\U0001F469", "ः", "\\u00e9", "a", "\\", "\r", "\n", "‍"}

// Unicode: strings of multi-byte characters.
func Unicode() {
	k := sym.Param("k", 2)
	txt := ""
	for i := 0; i < k; i++ {
		c := sym.Choice(len(uni) + 1)
		if c == len(uni) {
			txt += string([]byte{sym.ByteIn("ab\"\\,:} ")})
		} else {
			txt += uni[c]
		}
	}
	src := []byte("{\"a\":\"" + txt + "\"}")
	check(src)
	ref := lib.RefJSON(src)
	if ref != nil && ref.Kind == '{' && len(ref.Elems) == 1 && ref.Names[0] == "a" {
		f, _ := json.Parse(src, "t.json")
		attrs, _ := f.Body.JustAttributes()
		v, d := attrs["a"].Expr.Value(nil)
		sym.Assert(!d.HasErrors() && v.RawEquals(cty.StringVal(ref.Elems[0].Text)), "a string has the value JSON defines")
		sym.Cover("string")
	}
}
