package hjson

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// refProp is one property of an object that defines a body.
type refProp struct {
	name  string
	start int // of the quoted name
	val   *lib.JNode
}

type refBlock struct {
	typ       string
	typeStart int
	labels    []string
	labelPos  []int
	body      *lib.JNode
	def       int
}

type refContent struct {
	attrs  []refProp
	blocks []refBlock
	errs   []int // offsets of the subjects of the errors
	used   []string
}

func (c *refContent) err(at int) { c.errs = append(c.errs, at) }

func has(ss []string, s string) bool {
	for _, o := range ss {
		if o == s {
			return true
		}
	}
	return false
}

// flatten gives the properties of a body or label level.
func flatten(n *lib.JNode, errs *[]int) []refProp {
	var ps []refProp
	switch n.Kind {
	case '0':
	case '{':
		for i, e := range n.Elems {
			ps = append(ps, refProp{n.Names[i], n.NameStart[i], e})
		}
	case '[':
		for _, e := range n.Elems {
			if e.Kind != '{' {
				*errs = append(*errs, e.Start)
				continue
			}
			for i, ee := range e.Elems {
				ps = append(ps, refProp{e.Names[i], e.NameStart[i], ee})
			}
		}
	default:
		*errs = append(*errs, n.Start)
	}
	return ps
}

func missingAt(n *lib.JNode) int {
	if n.Kind == '{' {
		return n.End - 1
	}
	return n.Start
}

func (c *refContent) unpack(typ refProp, n *lib.JNode, left int, labels []string, at []int) {
	if left > 0 {
		ps := flatten(n, &c.errs)
		if len(ps) == 0 {
			c.err(n.Start)
		}
		for _, p := range ps {
			ls := append(append([]string(nil), labels...), p.name)
			ats := append(append([]int(nil), at...), p.start)
			c.unpack(typ, p.val, left-1, ls, ats)
		}
		return
	}
	switch n.Kind {
	case '0':
	case '{':
		c.blocks = append(c.blocks, refBlock{typ.name, typ.start, labels, at, n, n.Start})
	case '[':
		for _, e := range n.Elems {
			c.blocks = append(c.blocks, refBlock{typ.name, typ.start, labels, at, e, n.Start})
		}
	default:
		c.err(n.Start)
	}
}

func attrSchema(s *hcl.BodySchema, name string) *hcl.AttributeSchema {
	for i := range s.Attributes {
		if s.Attributes[i].Name == name {
			return &s.Attributes[i]
		}
	}
	return nil
}

func blockSchema(s *hcl.BodySchema, name string) *hcl.BlockHeaderSchema {
	for i := range s.Blocks {
		if s.Blocks[i].Type == name {
			return &s.Blocks[i]
		}
	}
	return nil
}

// refExtract is what extracting content according to a schema means.
func refExtract(n *lib.JNode, hidden []string, s *hcl.BodySchema, partial bool) *refContent {
	c := &refContent{used: append([]string(nil), hidden...)}
	var seen []string
	for _, p := range flatten(n, &c.errs) {
		if has(hidden, p.name) {
			continue
		}
		if attrSchema(s, p.name) != nil {
			if has(seen, p.name) {
				c.err(p.start)
				continue
			}
			seen = append(seen, p.name)
			c.attrs = append(c.attrs, p)
			c.used = append(c.used, p.name)
		} else if b := blockSchema(s, p.name); b != nil {
			c.unpack(p, p.val, len(b.LabelNames), nil, nil)
			c.used = append(c.used, p.name)
		} else if !partial && p.name != "//" {
			c.err(p.start)
		}
	}
	for _, a := range s.Attributes {
		if a.Required && !has(seen, a.Name) {
			c.err(missingAt(n))
		}
	}
	return c
}

func hasInt(is []int, i int) bool {
	for _, o := range is {
		if o == i {
			return true
		}
	}
	return false
}

func compareDiags(want []int, got hcl.Diagnostics, what string) {
	for _, d := range got {
		if d.Severity == hcl.DiagError {
			sym.Assert(d.Subject != nil && hasInt(want, d.Subject.Start.Byte), what+": nothing else is reported")
		}
	}
	for _, w := range want {
		ok := false
		for _, d := range got {
			ok = ok || d.Severity == hcl.DiagError && d.Subject != nil && d.Subject.Start.Byte == w
		}
		sym.Assert(ok, what+": every problem is reported")
	}
}

func compare(src []byte, ref *refContent, got *hcl.BodyContent, diags hcl.Diagnostics, what string) {
	compareDiags(ref.errs, diags, what)
	if got == nil {
		sym.Fail(what + ": content is returned")
		return
	}
	sym.Assert(len(got.Attributes) == len(ref.attrs), what+": exactly the attributes of the schema")
	for _, p := range ref.attrs {
		a := got.Attributes[p.name]
		sym.Assert(a != nil && a.Name == p.name, what+": attribute present")
		if a != nil {
			compareAttr(a, p, what)
		}
	}
	sym.Assert(len(got.Blocks) == len(ref.blocks), what+": exactly the blocks of the schema")
	for i, b := range got.Blocks {
		if i >= len(ref.blocks) {
			break
		}
		r := ref.blocks[i]
		sym.Assert(b.Type == r.typ && b.TypeRange.Start.Byte == r.typeStart, what+": blocks in order")
		sym.Assert(len(b.Labels) == len(r.labels) && len(b.LabelRanges) == len(r.labels), what+": number of labels")
		for j := range r.labels {
			if j < len(b.Labels) && j < len(b.LabelRanges) {
				sym.Assert(b.Labels[j] == r.labels[j], what+": labels in order")
				sym.Assert(b.LabelRanges[j].Start.Byte == r.labelPos[j], what+": label ranges")
			}
		}
		sym.Assert(b.DefRange.Start.Byte == r.def, what+": block range")
		sym.Assert(b.Body != nil && b.Body.MissingItemRange().Start.Byte == missingAt(r.body), what+": block body")
	}
}

func compareAttr(a *hcl.Attribute, p refProp, what string) {
	sym.Assert(a.NameRange.Start.Byte == p.start, what+": name range")
	sym.Assert(a.Range.Start.Byte == p.start && a.Range.End.Byte == p.val.End, what+": attribute range")
	sym.Assert(a.Expr.Range().Start.Byte == p.val.Start && a.Expr.Range().End.Byte == p.val.End, what+": attribute value")
}

func compareAttrs(n *lib.JNode, hidden []string, got hcl.Attributes, diags hcl.Diagnostics, what string) {
	var want []refProp
	var errs []int
	var seen []string
	if n.Kind != '{' {
		errs = append(errs, n.Start)
	} else {
		for _, p := range flatten(n, &errs) {
			if p.name == "//" || has(hidden, p.name) {
				continue
			}
			if has(seen, p.name) {
				errs = append(errs, p.start)
				continue
			}
			seen = append(seen, p.name)
			want = append(want, p)
		}
	}
	compareDiags(errs, diags, what)
	sym.Assert(len(got) == len(want), what+": exactly the properties")
	for _, p := range want {
		a := got[p.name]
		sym.Assert(a != nil && a.Name == p.name, what+": property present")
		if a != nil {
			compareAttr(a, p, what)
		}
	}
}

// gen writes a JSON value with at most *left further values.
func gen(left *int, root bool) []byte {
	*left--
	k := 0
	if root {
		k = sym.Choice(2)
	} else {
		k = sym.Choice(4)
	}
	switch k {
	case 0, 1:
		brackets := "{}[]"[2*k : 2*k+2]
		out := []byte{brackets[0]}
		for i := 0; *left > 0 && sym.Choice(2) == 1; i++ {
			if i > 0 {
				out = append(out, ',')
			}
			if k == 0 {
				out = append(out, '"')
				out = append(out, name()...)
				out = append(out, '"', ':')
			}
			out = append(out, gen(left, false)...)
		}
		return append(out, brackets[1])
	case 2:
		return []byte("null")
	default:
		return []byte("1")
	}
}

// name is one letter, or the property that holds a comment.
func name() []byte {
	c := sym.ByteIn("abcdr/")
	if c == '/' {
		return []byte("//")
	}
	return []byte{c}
}

var schemas = []*hcl.BodySchema{
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "c", LabelNames: []string{"x"}}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "r", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "d", LabelNames: []string{"x", "y"}}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "b"}, {Name: "d"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "a"}, {Type: "r", LabelNames: []string{"x"}}},
	},
	{},
}

// Steps: content extracted in two steps from any document.
func Steps() {
	left := sym.Param("n", 4)
	src := gen(&left, true)
	steps(src, sym.Param("blocks", 0))
}

func steps(src []byte, blocks int) {
	s1 := schemas[sym.Choice(len(schemas))]
	s2 := schemas[sym.Choice(len(schemas))]
	sym.ObserveBytes("src", src)
	sym.Freeze(s1)
	sym.Freeze(s2)
	n := lib.RefJSON(src)
	f, diags := json.Parse(src, "t.json")
	sym.Assert(n != nil && !diags.HasErrors(), "the document is valid")

	c1, rem, d1 := f.Body.PartialContent(s1)
	r1 := refExtract(n, nil, s1, true)
	compare(src, r1, c1, d1, "partial content")
	sym.ObserveInt("errors", len(r1.errs))
	sym.Assert(rem.MissingItemRange().Start.Byte == missingAt(n), "remaining body: missing item range")

	c2, d2 := rem.Content(s2)
	r2 := refExtract(n, r1.used, s2, false)
	compare(src, r2, c2, d2, "remaining content")

	as, da := rem.JustAttributes()
	compareAttrs(n, r1.used, as, da, "remaining attributes")

	_, rem2, _ := rem.PartialContent(s2)
	as, da = rem2.JustAttributes()
	r2 = refExtract(n, r1.used, s2, true)
	compareAttrs(n, r2.used, as, da, "attributes left after two steps")

	// the first body is still whole
	as, da = f.Body.JustAttributes()
	compareAttrs(n, nil, as, da, "attributes")
	c3, d3 := f.Body.Content(s2)
	compare(src, refExtract(n, nil, s2, false), c3, d3, "content")

	for i, b := range c1.Blocks {
		if i < len(r1.blocks) && blocks > 0 {
			sym.Cover("block")
			bc, bd := b.Body.Content(s2)
			compare(src, refExtract(r1.blocks[i].body, nil, s2, false), bc, bd, "block content")
		}
	}
	if len(r1.attrs) > 0 {
		sym.Cover("attribute")
	}
	if len(r1.errs) == 0 {
		sym.Cover("no error")
	}
}

var shapes = []string{
	`{"?": {"?": {"?": {"?": 1}}}}`,
	`{"?": [{"?": {"?": 1}}, {"?": [{"?": 1}, {}]}]}`,
	`[{"?": 1, "?": {}}, {"?": {"?": null}}, 1]`,
	`{"?": {"?": [{"?": 1}, 2, null]}, "?": 1}`,
	`{"?": {"?": {"?": [{}, {"?": 1}]}, "?": {"?": null}}}`,
	`{"?": [], "?": {"?": []}, "?": null}`,
	`{"?": [[{"?": 1}]], "?": [{"?": [{"?": {}}, {"?": {}}]}]}`,
	`{"?": "s", "?": true, "?": {"?": "s"}}`,
}

// Shapes: larger documents with free property names.
func Shapes() {
	sh := shapes[sym.Choice(len(shapes))]
	var src []byte
	for i := 0; i < len(sh); i++ {
		if sh[i] == '?' {
			src = append(src, name()...)
		} else {
			src = append(src, sh[i])
		}
	}
	steps(src, 1)
}

