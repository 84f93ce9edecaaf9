package lib

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// RItem is an attribute or block of a reference body.
type RItem struct {
	Block    bool
	Name     string
	Labels   []string
	LabelPos []int
	Pos      int // of the name
	Open     int // of the opening brace of a block
	Text     string
	ExprPos  int
	ExprEnd  int
	Body     []*RItem
	Src      int // which of several sources it comes from
}

// RContent is what a body yields under a schema.
type RContent struct {
	Attrs  []*RItem
	Blocks []*RItem
	// Errs are the offsets of the subjects of errors, except for missing
	// attributes, which are counted.
	Errs    []int
	Missing int

	HiddenAttrs  []string
	HiddenBlocks []string
}

// In tells if a name is in a list.
func In(ss []string, s string) bool {
	for _, o := range ss {
		if o == s {
			return true
		}
	}
	return false
}

// InInts tells if a number is in a list.
func InInts(is []int, i int) bool {
	for _, o := range is {
		if o == i {
			return true
		}
	}
	return false
}

// AttrS and BlockS find the entry of a schema, nil if there is none.
func AttrS(s *hcl.BodySchema, name string) *hcl.AttributeSchema {
	for i := range s.Attributes {
		if s.Attributes[i].Name == name {
			return &s.Attributes[i]
		}
	}
	return nil
}

func BlockS(s *hcl.BodySchema, name string) *hcl.BlockHeaderSchema {
	for i := range s.Blocks {
		if s.Blocks[i].Type == name {
			return &s.Blocks[i]
		}
	}
	return nil
}

// RefExtract is the definition of content extraction for bodies in which
// attributes and blocks are distinct. Hidden is the content of earlier steps.
func RefExtract(items []*RItem, hidden *RContent, s *hcl.BodySchema, partial bool) *RContent {
	c := &RContent{}
	if hidden != nil {
		c.HiddenAttrs = append(c.HiddenAttrs, hidden.HiddenAttrs...)
		c.HiddenBlocks = append(c.HiddenBlocks, hidden.HiddenBlocks...)
	}
	var found []string
	for _, it := range items {
		if !it.Block {
			switch {
			case hidden != nil && In(hidden.HiddenAttrs, it.Name):
			case AttrS(s, it.Name) != nil:
				c.Attrs = append(c.Attrs, it)
				c.HiddenAttrs = append(c.HiddenAttrs, it.Name)
				found = append(found, it.Name)
			case !partial:
				c.Errs = append(c.Errs, it.Pos)
			}
			continue
		}
		if hidden != nil && In(hidden.HiddenBlocks, it.Name) {
			continue
		}
		bs := BlockS(s, it.Name)
		switch {
		case bs == nil:
			if !partial {
				c.Errs = append(c.Errs, it.Pos)
			}
		case len(it.Labels) > len(bs.LabelNames):
			c.Errs = append(c.Errs, it.LabelPos[len(bs.LabelNames)])
		case len(it.Labels) < len(bs.LabelNames):
			c.Errs = append(c.Errs, it.Open)
		default:
			c.Blocks = append(c.Blocks, it)
		}
	}
	for _, a := range s.Attributes {
		if a.Required && !In(found, a.Name) {
			c.Missing++
		}
	}
	for _, b := range s.Blocks {
		c.HiddenBlocks = append(c.HiddenBlocks, b.Type)
	}
	return c
}

// CheckErrs compares diagnostics with the expected ones.
func CheckErrs(ref *RContent, missing hcl.Range, got hcl.Diagnostics, what string) {
	n := 0
	for _, d := range got {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject != nil && InInts(ref.Errs, d.Subject.Start.Byte) {
			continue
		}
		if n < ref.Missing && (d.Subject == nil || *d.Subject == missing) {
			n++
			continue
		}
		sym.Fail(what + ": nothing else is reported")
	}
	for _, w := range ref.Errs {
		ok := false
		for _, d := range got {
			ok = ok || d.Severity == hcl.DiagError && d.Subject != nil && d.Subject.Start.Byte == w
		}
		sym.Assert(ok, what+": every problem is reported")
	}
	if InInts(ref.Errs, missing.Start.Byte) {
		n = 0
		for _, d := range got {
			if d.Subject == nil || *d.Subject == missing {
				n++
			}
		}
		sym.Assert(n >= ref.Missing, what+": every missing attribute is reported")
		return
	}
	sym.Assert(n == ref.Missing, what+": every missing attribute is reported")
}

// CheckContent compares content with the expected one.
func CheckContent(ref *RContent, got *hcl.BodyContent, what string) {
	if got == nil {
		sym.Fail(what + ": content is returned")
		return
	}
	CheckAttrs(ref.Attrs, got.Attributes, what)
	sym.Assert(len(got.Blocks) == len(ref.Blocks), what+": exactly the blocks of the schema")
	for i, b := range got.Blocks {
		if i < len(ref.Blocks) {
			CheckBlock(ref.Blocks[i], b, what)
		}
	}
}

// CheckAttrs compares attributes with the expected ones.
func CheckAttrs(ref []*RItem, got hcl.Attributes, what string) {
	sym.Assert(len(got) == len(ref), what+": exactly the attributes expected")
	for _, it := range ref {
		a := got[it.Name]
		if a == nil {
			sym.Fail(what + ": attribute present")
			continue
		}
		sym.Assert(a.Name == it.Name && a.NameRange.Start.Byte == it.Pos && a.NameRange.End.Byte == it.Pos+len(it.Name), what+": attribute name")
		sym.Assert(a.Range.Start.Byte == it.Pos && a.Range.End.Byte == it.ExprEnd, what+": attribute range")
		r := a.Expr.Range()
		sym.Assert(r.Start.Byte == it.ExprPos && r.End.Byte == it.ExprEnd, what+": attribute value")
	}
}

// CheckBlock compares one block.
func CheckBlock(it *RItem, b *hcl.Block, what string) {
	sym.Assert(b.Type == it.Name && b.TypeRange.Start.Byte == it.Pos && b.TypeRange.End.Byte == it.Pos+len(it.Name), what+": blocks in order")
	sym.Assert(b.DefRange.Start.Byte == it.Pos, what+": block header range")
	sym.Assert(len(b.Labels) == len(it.Labels) && len(b.LabelRanges) == len(it.Labels), what+": labels complete")
	for j := range it.Labels {
		if j < len(b.Labels) && j < len(b.LabelRanges) {
			sym.Assert(b.Labels[j] == it.Labels[j] && b.LabelRanges[j].Start.Byte == it.LabelPos[j], what+": labels in order")
		}
	}
	if n := len(it.Labels); n > 0 && len(b.LabelRanges) == n {
		sym.Assert(b.DefRange.End == b.LabelRanges[n-1].End, what+": block header range")
	}
	sym.Assert(b.Body != nil, what+": block body")
}

// LeftAttrs and LeftBlocks are what remains after steps.
func LeftAttrs(items []*RItem, c *RContent) []*RItem {
	var out []*RItem
	for _, it := range items {
		if !it.Block && (c == nil || !In(c.HiddenAttrs, it.Name)) {
			out = append(out, it)
		}
	}
	return out
}

func LeftBlocks(items []*RItem, c *RContent) []*RItem {
	var out []*RItem
	for _, it := range items {
		if it.Block && (c == nil || !In(c.HiddenBlocks, it.Name)) {
			out = append(out, it)
		}
	}
	return out
}

// GenBody writes a body of at most left items with names out of the given
// set and returns its items. Attribute names are distinct.
type GenBody struct {
	Src   []byte
	Names string
	Left  int
	Depth int
	Expr  func() string // text of attribute values; nil for numbers
	// MaxLabels is the greatest number of labels.
	MaxLabels int
}

func (g *GenBody) Body(depth int) []*RItem {
	var items []*RItem
	for g.Left > 0 && sym.Choice(2) == 1 {
		g.Left--
		it := &RItem{Block: sym.Choice(2) == 1, Pos: len(g.Src)}
		it.Name = string([]byte{sym.ByteIn(g.Names)})
		g.Src = append(g.Src, it.Name...)
		g.Src = append(g.Src, ' ')
		if !it.Block {
			for _, o := range items {
				sym.Assume(o.Block || o.Name != it.Name)
			}
			g.Src = append(g.Src, "= "...)
			it.ExprPos = len(g.Src)
			it.Text = "1"
			if g.Expr != nil {
				it.Text = g.Expr()
			}
			g.Src = append(g.Src, it.Text...)
			it.ExprEnd = len(g.Src)
			g.Src = append(g.Src, '\n')
			items = append(items, it)
			continue
		}
		for i := sym.Choice(g.MaxLabels + 1); i > 0; i-- {
			l := string([]byte{sym.ByteIn("pq")})
			it.Labels = append(it.Labels, l)
			it.LabelPos = append(it.LabelPos, len(g.Src))
			if i%2 == 1 {
				g.Src = append(g.Src, '"')
				g.Src = append(g.Src, l...)
				g.Src = append(g.Src, '"', ' ')
			} else {
				g.Src = append(g.Src, l...)
				g.Src = append(g.Src, ' ')
			}
		}
		it.Open = len(g.Src)
		g.Src = append(g.Src, '{', '\n')
		if depth > 0 {
			it.Body = g.Body(depth - 1)
		}
		g.Src = append(g.Src, '}', '\n')
		items = append(items, it)
	}
	return items
}
