package hpack

import (
	"encoding/base64"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// inspect uses everything a body offers.
func inspect(b *hclpack.Body) {
	as, _ := b.JustAttributes()
	s := &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "x", Required: true}, {Name: "y"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"l"}}},
	}
	c, _ := b.Content(s)
	sym.Assert(c != nil, "content is returned")
	_, rem, _ := b.PartialContent(s)
	sym.Assert(rem != nil, "a remaining body is returned")
	rem.JustAttributes()
	for n, a := range b.Attributes {
		sym.Assert(as[n] != nil && as[n].Range == a.Range && as[n].NameRange == a.NameRange, "attribute offered")
		v, diags := a.Expr.Value(lib.Ctx())
		sym.Assert(v != cty.NilVal, "a value is returned")
		sym.Assert(lib.Well(v), "the value is well formed")
		for _, d := range diags {
			sym.Assert(d.Summary != "" && d.Severity != hcl.DiagInvalid, "diagnostics are complete")
		}
		a.Expr.Variables()
		sym.Assert(a.Expr.UnwrapExpression() != nil, "an expression is returned")
	}
	for i := range b.ChildBlocks {
		bl := &b.ChildBlocks[i]
		sym.Assert(len(bl.LabelRanges) == len(bl.Labels), "a range for each label")
		inspect(&bl.Body)
	}
}

// readInt reads a variable length integer; ok is false if it is incomplete.
func readInt(b []byte) (v int, rest []byte, ok bool) {
	var u uint64
	for i := 0; i < len(b) && i < 10; i++ {
		u = u<<7 + uint64(b[i]&127)
		if b[i] < 128 {
			v = int(u / 2)
			if u%2 == 1 {
				v = -v - 1
			}
			return v, b[i+1:], true
		}
	}
	return 0, nil, false
}

type filePos struct {
	file int
	pos  hcl.Pos
}

// readPositions reads a position table.
func readPositions(b []byte) ([]filePos, bool) {
	var ret []filePos
	file, at := 0, hcl.Pos{}
	for len(b) > 0 {
		if b[0] == ';' {
			file++
			b = b[1:]
			at = hcl.Pos{}
			continue
		}
		l, r1, ok1 := readInt(b)
		if !ok1 {
			return nil, false
		}
		c, r2, ok2 := readInt(r1)
		if !ok2 {
			return nil, false
		}
		d, r3, ok3 := readInt(r2)
		if !ok3 {
			return nil, false
		}
		b = r3
		if l > 0 {
			at.Column = 0
		}
		at.Line += l
		at.Column += c
		at.Byte += d
		ret = append(ret, filePos{file, at})
	}
	return ret, true
}

// readRanges reads a range table.
func readRanges(b []byte, ps []filePos, files []string) ([]hcl.Range, bool) {
	var ret []hcl.Range
	for len(b) > 0 {
		s, r1, ok1 := readInt(b)
		if !ok1 {
			return nil, false
		}
		e, r2, ok2 := readInt(r1)
		if !ok2 {
			return nil, false
		}
		b = r2
		var r hcl.Range
		if s > 0 && s <= len(ps) && e > 0 && e <= len(ps) {
			if f := ps[s-1].file; f < len(files) {
				r.Filename = files[f]
			}
			r.Start, r.End = ps[s-1].pos, ps[e-1].pos
		}
		ret = append(ret, r)
	}
	return ret, true
}

func at(rs []hcl.Range, i int) hcl.Range {
	if i < len(rs) {
		return rs[i]
	}
	return hcl.Range{}
}

// Tables: any bytes as position and range tables.
func Tables() {
	pos, rng := sym.Bytes(sym.Param("p", 3)), sym.Bytes(sym.Param("r", 4))
	if sym.Param("short", 0) != 0 {
		// only numbers of a single byte
		for _, c := range pos {
			sym.Assume(c < 128)
		}
		for _, c := range rng {
			sym.Assume(c < 128)
		}
	}
	sym.ObserveBytes("pos", pos)
	sym.ObserveBytes("rng", rng)
	files := []string{"f", "g"}[:sym.Choice(3)]
	fs := ""
	for i, f := range files {
		if i > 0 {
			fs += ","
		}
		fs += "\"" + f + "\""
	}
	r64 := base64.RawStdEncoding.EncodeToString(rng)
	where := sym.Choice(3)
	js := ""
	switch where {
	case 0:
		js = `"r":"` + r64 + `"`
	case 1:
		js = `"a":{"x":{"s":"1","r":"` + r64 + `"}}`
	case 2:
		js = `"b":[{"h":["b","l"],"r":"` + r64 + `"}]`
	}
	js = `{"r":{` + js + `},"s":[` + fs + `],"p":"` + base64.RawStdEncoding.EncodeToString(pos) + `"}`
	var b hclpack.Body
	err := b.UnmarshalJSON([]byte(js))
	ps, ok := readPositions(pos)
	var rs []hcl.Range
	if ok {
		rs, ok = readRanges(rng, ps, files)
	}
	sym.Assert((err == nil) == ok, "exactly well formed tables are accepted")
	if err != nil || !ok {
		return
	}
	sym.Cover("accepted")
	switch where {
	case 0:
		sym.Assert(b.MissingItemRange() == at(rs, 0), "range for missing items")
	case 1:
		x := b.Attributes["x"]
		sym.Assert(x.Range == at(rs, 0) && x.NameRange == at(rs, 1), "attribute ranges")
		sym.Assert(x.Expr.Range() == at(rs, 2), "expression range")
		start := at(rs, 3)
		if start == (hcl.Range{}) {
			start = at(rs, 2)
		}
		sym.Assert(x.Expr.StartRange() == start, "start range")
	case 2:
		x := b.ChildBlocks[0]
		sym.Assert(x.DefRange == at(rs, 0) && x.TypeRange == at(rs, 1), "block ranges")
		sym.Assert(len(x.LabelRanges) == 1 && x.LabelRanges[0] == at(rs, 2), "label range")
	}
	for _, r := range rs {
		if r != (hcl.Range{}) {
			sym.Cover("range")
		}
	}
	inspect(&b)
}

// Text: documents with any text replaced.
func Text() {
	js := lib.Mutate(jsonDocs, jsonAlpha)
	sym.ObserveBytes("json", js)
	var b hclpack.Body
	if b.UnmarshalJSON(js) != nil {
		return
	}
	sym.Cover("accepted")
	inspect(&b)
}

const jsonAlpha = "{}[]\":,abhrstp01-.=\\ "

var jsonDocs = []string{
	`{"r":{"a":{"x":{"s":"1","t":2,"r":"AgQCBAIEAgQ"}},"r":"AgQ"},"s":["f"],"p":"AgIAAAIC"}`,
	`{"r":{"b":[{"h":["b","l"],"b":{"r":"AgQ"},"r":"AgQCBA"}]},"p":"AgIAOzsC"}`,
	`{"r":{"a":{"x":{"s":"[a"},"y":{"s":"${a","t":1}}}}`,
	`{"r":{"b":[{"h":[]},{"h":["b"]},{}]},"s":[]}`,
}

// Source: attributes of any source and syntax.
func Source() {
	src := sym.BytesIn("a1[]{}.,:x \"$(+", sym.Param("n", 3))
	for i, c := range src {
		if c == '"' {
			src[i] = '\''
		}
	}
	sym.ObserveBytes("src", src)
	t := []string{"0", "1", "2", "3", "-1"}[sym.Choice(5)]
	q := ""
	for _, c := range src {
		if c == '\'' {
			q += "\\\""
		} else {
			q += string([]byte{c})
		}
	}
	js := `{"r":{"a":{"x":{"s":"` + q + `","t":` + t + `}}}}`
	var b hclpack.Body
	err := b.UnmarshalJSON([]byte(js))
	sym.Assert(err == nil, "the document is accepted")
	if err != nil {
		return
	}
	inspect(&b)
	x := b.Attributes["x"]
	_, diags := x.Expr.Parse()
	if t == "3" || t == "-1" {
		sym.Assert(diags.HasErrors(), "an unknown syntax is reported")
	}
	if !diags.HasErrors() {
		sym.Cover("parsed")
	}
}
