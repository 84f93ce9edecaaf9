// Package hdyn holds the harnesses about dynamic blocks.
package hdyn

import (
	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// scope holds the iterators in effect, innermost last.
type scope struct {
	names  []string
	keys   []cty.Value
	values []cty.Value
}

func (s *scope) child(name string, k, v cty.Value) *scope {
	n := &scope{}
	if s != nil {
		n.names = append(n.names, s.names...)
		n.keys = append(n.keys, s.keys...)
		n.values = append(n.values, s.values...)
	}
	n.names = append(n.names, name)
	n.keys = append(n.keys, k)
	n.values = append(n.values, v)
	return n
}

func (s *scope) has(name string) bool {
	return s != nil && lib.In(s.names, name)
}

// ref is an expression: a name, or the key or value of a name. Lit is used
// for expressions without names.
type ref struct {
	name, part string
	text       string
	lit        func() cty.Value
}

func (r ref) src() string {
	switch {
	case r.text != "":
		return r.text
	case r.part != "":
		return r.name + "." + r.part
	}
	return r.name
}

// eval gives the value, false if it is an error.
func (r ref) eval(g *gen, s *scope) (cty.Value, bool) {
	if r.lit != nil {
		return r.lit(), true
	}
	if s != nil {
		for i := len(s.names) - 1; i >= 0; i-- {
			if s.names[i] != r.name {
				continue
			}
			switch r.part {
			case "key":
				return s.keys[i], true
			case "value":
				return s.values[i], true
			}
			return cty.ObjectVal(map[string]cty.Value{"key": s.keys[i], "value": s.values[i]}), true
		}
	}
	v, ok := g.vars[r.name]
	if !ok {
		return cty.DynamicVal, false
	}
	if r.part != "" {
		return v.GetAttr(r.part), true
	}
	return v, true
}

type item struct {
	kind    int // 0 attribute, 1 block, 2 dynamic block
	name    string
	pos     int
	expr    ref
	labels  []string
	each    ref
	iter    string
	lexprs  []ref
	body    []*item
	problem bool // the dynamic block itself is malformed
	typePos int
}

// gen writes a body and remembers its items.
type gen struct {
	src      []byte
	left     int
	vars     map[string]cty.Value
	mode     int
	depth    int
	dynamics int
}

func (g *gen) w(s string) { g.src = append(g.src, s...) }

var iterNames = []string{"", "it"}

func (g *gen) newVars() {
	x := lib.StrC("xy")
	g.vars = map[string]cty.Value{
		"v":  x,
		"b":  cty.ObjectVal(map[string]cty.Value{"key": cty.StringVal("bk"), "value": cty.TupleVal([]cty.Value{cty.StringVal("bv")})}),
		"it": cty.ObjectVal(map[string]cty.Value{"key": cty.StringVal("ik"), "value": cty.ListVal([]cty.Value{x})}),
		"l":  cty.ListVal([]cty.Value{x, cty.StringVal("y")}),
		"m":  cty.MapVal(map[string]cty.Value{"p": x, "q": cty.StringVal("z")}),
		"s":  cty.SetVal([]cty.Value{x, cty.StringVal("z")}),
		"o":  cty.ObjectVal(map[string]cty.Value{"p": cty.TupleVal([]cty.Value{x}), "r": cty.EmptyTupleVal}),
		"n":  cty.NullVal(cty.List(cty.String)),
		"u":  cty.UnknownVal(cty.List(cty.String)),
		"d":  cty.DynamicVal,
		"i":  cty.NumberIntVal(3),
		"e":  cty.ListValEmpty(cty.String),
	}
}

// expr is the expression of a first or second attribute.
func (g *gen) expr(second bool) ref {
	var es []ref
	switch g.mode {
	case 0:
		es = []ref{{name: "v"}, {name: "b", part: "value"}, {name: "it", part: "key"}}
	case 3:
		es = []ref{{name: "b", part: "value"}}
		if second {
			es = []ref{{name: "v"}}
		}
	case 1, 4:
		es = []ref{{name: "v"}, {name: "b", part: "key"}, {name: "b", part: "value"}, {name: "it", part: "value"}}
	default:
		es = []ref{{name: "v"}, {name: "b", part: "key"}, {name: "c", part: "value"}}
	}
	return es[sym.Choice(len(es))]
}

func (g *gen) each() ref {
	var es []ref
	switch g.mode {
	case 0: // all kinds of collection
		es = []ref{{name: "l"}, {name: "m"}, {name: "s"}, {name: "o"}, {name: "n"}, {name: "u"}, {name: "d"}, {name: "i"}, {name: "e"}, {name: "v"}, {name: "zz"}, {name: "b"},
			{text: "[\"k\", 1]", lit: func() cty.Value {
				return cty.TupleVal([]cty.Value{cty.StringVal("k"), cty.NumberIntVal(1)})
			}},
			{text: "null", lit: func() cty.Value { return cty.NullVal(cty.DynamicPseudoType) }},
			{text: "{}", lit: func() cty.Value { return cty.EmptyObjectVal }}}
	case 4, 5:
		es = []ref{{name: "l"}, {name: "u"}, {name: "b", part: "value"}}
	case 1: // collections for nesting
		es = []ref{{name: "o"}, {name: "l"}, {name: "b", part: "value"}, {name: "it", part: "value"}, {name: "u"}}
	case 3: // order
		es = []ref{{name: "l"}, {name: "m"}, {name: "u"}}
	default:
		es = []ref{{name: "l"}}
	}
	return es[sym.Choice(len(es))]
}

func (g *gen) labelExprs(typ string) []ref {
	one := []ref{{name: "c", part: "key"}, {name: "it", part: "key"}}
	if g.mode == 3 || g.mode == 4 {
		one = one[:1]
	}
	if g.mode == 0 {
		one = append(one, ref{name: "v"}, ref{name: "i"}, ref{name: "d"}, ref{name: "n"}, ref{name: "l"}, ref{name: "zz"})
	}
	return []ref{one[sym.Choice(len(one))]}
}

// body writes a body at a nesting depth.
func (g *gen) body(depth int) []*item {
	var items []*item
	seen := ""
	for g.left > 0 && !(g.mode == 1 && depth == g.depth && len(items) > 0) {
		if g.mode == 4 && len(items) > 0 || g.mode != 4 && sym.Choice(2) == 0 {
			break
		}
		g.left--
		it := &item{pos: len(g.src)}
		kinds := 3
		if depth == 0 {
			kinds = 1
		}
		if g.mode == 0 && g.dynamics > 0 {
			kinds = 2
		}
		if g.mode == 4 && depth > 0 { // a chain of blocks
			it.kind = 1 + sym.Choice(2)
		} else {
			it.kind = sym.Choice(kinds)
		}
		switch it.kind {
		case 0:
			it.name = "a"
			if g.mode == 2 {
				it.name = string([]byte{sym.ByteIn("ah")})
			} else if seen != "" {
				it.name = "h"
			}
			sym.Assume(it.name != seen)
			sym.Assume(seen == "" || len(seen) == 1)
			if seen == "" {
				seen = it.name
			} else {
				seen = "both"
			}
			it.expr = g.expr(it.name == "h")
			g.w(it.name + " = " + it.expr.src() + "\n")
		case 1:
			it.name = []string{"b", "c"}[sym.Choice(2)]
			if g.mode == 5 {
				it.name = "f"
				it.labels = []string{"s", "t", "u"}[:sym.Choice(4)]
			}
			g.w(it.name)
			for _, l := range it.labels {
				g.w(" \"" + l + "\"")
			}
			if it.name == "c" && (g.mode == 4 || sym.Choice(3) > 0) {
				it.labels = []string{"s"}
				g.w(" \"s\"")
			}
			g.w(" {\n")
			it.body = g.body(depth - 1)
			g.w("}\n")
		default:
			g.dynamic(it, depth)
		}
		items = append(items, it)
	}
	return items
}

// dynamic writes a dynamic block.
func (g *gen) dynamic(it *item, depth int) {
	g.dynamics++
	types := 2
	switch g.mode {
	case 2:
		types = 3
	case 5:
		types = 1
	}
	it.name = []string{"b", "c", "g"}[sym.Choice(types)]
	if g.mode == 5 {
		it.name = "f"
	}
	g.w("dynamic \"")
	it.typePos = len(g.src) - 1
	g.w(it.name + "\" {\n")
	bad := 0
	if g.mode == 2 {
		bad = sym.Choice(9)
	}
	it.each = g.each()
	if bad != 1 {
		g.w("for_each = " + it.each.src() + "\n")
	}
	switch bad {
	case 2:
		g.w("iterator = b.c\n")
	case 3:
		g.w("iterator = \"x${v}\"\n")
	case 4:
		g.w("other = 1\n")
	default:
		if g.mode == 3 {
			break
		}
		if it.iter = iterNames[sym.Choice(2)]; it.iter != "" {
			g.w("iterator = " + it.iter + "\n")
		}
	}
	if g.mode == 5 {
		// two labels are required
		k := 2
		if sym.Choice(3) == 0 {
			k = 1 + 2*sym.Choice(2)
			it.problem = true
		}
		g.w("labels = [")
		for i := 0; i < k; i++ {
			if i > 0 {
				g.w(", ")
			}
			l := []ref{{name: "f", part: "key"}, {name: "it", part: "key"}, {name: "v"}, {name: "zz"}}[sym.Choice(4)]
			it.lexprs = append(it.lexprs, l)
			g.w(l.src())
		}
		g.w("]\n")
	} else if it.name == "c" || bad == 5 {
		it.lexprs = g.labelExprs(it.name)
		g.w("labels = [" + it.lexprs[0].src())
		if bad == 5 {
			g.w(", v")
		}
		g.w("]\n")
	}
	if bad != 6 {
		g.w("content {\n")
		it.body = g.body(depth - 1)
		g.w("}\n")
	}
	switch bad {
	case 7:
		g.w("content {\n}\n")
	case 8:
		g.w("b {\n}\n")
	}
	it.problem = it.problem || bad > 0
	g.w("}\n")
}

var inner = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "h"}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "c", LabelNames: []string{"x"}}, {Type: "f", LabelNames: []string{"x", "y"}}},
}

var schemas = []*hcl.BodySchema{
	inner,
	{Attributes: []hcl.AttributeSchema{{Name: "a"}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}},
	{Attributes: []hcl.AttributeSchema{{Name: "h", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"x"}}}},
}

// out is an expected block or attribute.
type out struct {
	it     *item
	labels []string
	sc     *scope
	unk    bool
}

// expand is the reference: what a body yields under a schema. Hidden are the
// schemas of earlier steps. It returns the number of errors.
func (g *gen) expand(items []*item, sc *scope, unk bool, s *hcl.BodySchema, hidden *hcl.BodySchema, partial bool) (attrs, blocks []out, errs int) {
	found := ""
	for _, it := range items {
		switch it.kind {
		case 0:
			switch {
			case hidden != nil && lib.AttrS(hidden, it.name) != nil:
			case lib.AttrS(s, it.name) != nil:
				attrs = append(attrs, out{it: it, sc: sc, unk: unk})
				found += it.name
			case !partial:
				errs++
			}
			continue
		}
		if hidden != nil && lib.BlockS(hidden, it.name) != nil {
			continue
		}
		bs := lib.BlockS(s, it.name)
		if bs == nil {
			if !partial {
				errs++
			}
			continue
		}
		if it.kind == 1 {
			if len(it.labels) != len(bs.LabelNames) {
				errs++
				continue
			}
			blocks = append(blocks, out{it: it, labels: it.labels, sc: sc, unk: unk})
			continue
		}
		if it.problem {
			errs++
			continue
		}
		coll, ok := it.each.eval(g, sc)
		ty := coll.Type()
		if !ok || coll.IsNull() || !(ty == cty.DynamicPseudoType || ty.IsCollectionType() || ty.IsTupleType() || ty.IsObjectType()) {
			errs++
			continue
		}
		name := it.iter
		if name == "" {
			name = it.name
		}
		add := func(k, v cty.Value, unk bool) {
			o := out{it: it, sc: sc.child(name, k, v), unk: unk}
			for _, l := range it.lexprs {
				lv, ok := l.eval(g, o.sc)
				if !ok || lv.IsNull() || !lv.IsKnown() || !lv.Type().IsPrimitiveType() {
					errs++
					return
				}
				if lv.Type() == cty.Number {
					bf := lv.AsBigFloat()
					o.labels = append(o.labels, bf.Text('f', -1))
				} else {
					o.labels = append(o.labels, lv.AsString())
				}
			}
			blocks = append(blocks, o)
		}
		if !coll.IsKnown() {
			add(cty.DynamicVal, cty.DynamicVal, true)
			continue
		}
		for e := coll.ElementIterator(); e.Next(); {
			k, v := e.Element()
			add(k, v, unk)
		}
	}
	for _, a := range s.Attributes {
		if a.Required && (found == "" || found != a.Name && (len(found) < 2 || found[0:1] != a.Name && found[1:2] != a.Name)) {
			errs++
		}
	}
	return attrs, blocks, errs
}

func (g *gen) checkAttrs(want []out, got hcl.Attributes, ctx *hcl.EvalContext, what string) {
	sym.Assert(len(got) == len(want), what+": exactly the attributes written")
	for _, o := range want {
		a := got[o.it.name]
		if a == nil {
			sym.Fail(what + ": attribute present")
			continue
		}
		sym.Assert(a.Name == o.it.name && a.NameRange.Start.Byte == o.it.pos, what+": attribute position")
		v, diags := a.Expr.Value(ctx)
		w, ok := o.it.expr.eval(g, o.sc)
		if o.unk {
			w, ok = cty.DynamicVal, true
		}
		sym.Assert(diags.HasErrors() != ok, what+": attribute evaluates like the one written out")
		if ok {
			sym.Assert(v.RawEquals(w), what+": attribute value")
		}
		vars := a.Expr.Variables()
		if o.unk || o.sc.has(o.it.expr.name) {
			sym.Assert(len(vars) == 0, what+": iterators need not be provided")
		} else {
			sym.Assert(len(vars) == 1 && vars[0].RootName() == o.it.expr.name, what+": variables must be provided")
		}
	}
}

func (g *gen) checkBlocks(want []out, got hcl.Blocks, ctx *hcl.EvalContext, depth int, what string) {
	sym.Assert(len(got) == len(want), what+": one block per element, in place")
	for i, b := range got {
		if i >= len(want) {
			return
		}
		o := want[i]
		sym.Assert(b.Type == o.it.name, what+": block type")
		sym.Assert(len(b.Labels) == len(o.labels) && len(b.LabelRanges) == len(o.labels), what+": labels the schema requires")
		for j := range b.Labels {
			if j < len(o.labels) {
				sym.Assert(b.Labels[j] == o.labels[j], what+": label value")
			}
		}
		sym.Assert(b.DefRange.Start.Byte == o.it.pos, what+": block position")
		if o.it.kind == 2 {
			sym.Assert(b.TypeRange.Start.Byte == o.it.typePos, what+": block position")
			sym.Cover("expanded")
		}
		// the body may be examined in several ways
		mi := b.Body.MissingItemRange()
		c, d := b.Body.Content(inner)
		attrs, blocks, errs := g.expand(o.it.body, o.sc, o.unk, inner, nil, false)
		sym.Assert(d.HasErrors() == (errs > 0), what+" nested: errors exactly where the written form has them")
		sym.Assert(c.MissingItemRange == mi, what+" nested: missing item range")
		g.checkAttrs(attrs, c.Attributes, ctx, what+" nested")
		if depth > 0 {
			g.checkBlocks(blocks, c.Blocks, ctx, depth-1, what+" nested")
		}
		g.checkRest(o, b.Body, ctx, depth, what+" nested")
		as, d := b.Body.JustAttributes()
		g.checkAttrs(attrs, as, ctx, what+" attributes")
		sym.Assert(d.HasErrors() == hasBlocks(o.it.body, nil), what+" attributes: blocks are reported")
	}
}

// checkRest takes the content of a generated block in two steps.
func (g *gen) checkRest(o out, b hcl.Body, ctx *hcl.EvalContext, depth int, what string) {
	if sym.Param("rest", 1) == 0 {
		return
	}
	first, second := schemas[1], schemas[2]
	if sym.Param("rest", 1) == 2 {
		first, second = &hcl.BodySchema{}, inner
	}
	c, rest, d := b.PartialContent(first)
	attrs, _, errs := g.expand(o.it.body, o.sc, o.unk, first, nil, true)
	sym.Assert(d.HasErrors() == (errs > 0), what+" in part: errors exactly where the written form has them")
	g.checkAttrs(attrs, c.Attributes, ctx, what+" in part")
	c, d = rest.Content(second)
	attrs, blocks, errs := g.expand(o.it.body, o.sc, o.unk, second, first, false)
	sym.Assert(d.HasErrors() == (errs > 0), what+" remaining: errors exactly where the written form has them")
	g.checkAttrs(attrs, c.Attributes, ctx, what+" remaining")
	if depth > 0 {
		g.checkBlocks(blocks, c.Blocks, ctx, depth-1, what+" remaining")
	}
	as, d := rest.JustAttributes()
	attrs, _, _ = g.expand(o.it.body, o.sc, o.unk, inner, first, true)
	g.checkAttrs(attrs, as, ctx, what+" remaining attributes")
	sym.Assert(d.HasErrors() == hasBlocks(o.it.body, first), what+" remaining attributes: blocks are reported")
}

func hasBlocks(items []*item, hidden *hcl.BodySchema) bool {
	for _, it := range items {
		if it.kind > 0 && (hidden == nil || lib.BlockS(hidden, it.name) == nil) {
			return true
		}
	}
	return false
}

func (g *gen) make() ([]*item, hcl.Body, *hcl.EvalContext) {
	g.left = sym.Param("n", 2)
	g.mode = sym.Param("mode", 0)
	g.newVars()
	g.depth = sym.Param("depth", 1)
	items := g.body(g.depth)
	sym.ObserveBytes("src", g.src)
	f, diags := hclsyntax.ParseConfig(g.src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	ctx := &hcl.EvalContext{Variables: g.vars}
	sym.Freeze(ctx)
	return items, f.Body, ctx
}

// Expand: a body with dynamic blocks against the blocks written out.
func Expand() {
	g := &gen{}
	items, body, ctx := g.make()
	depth := sym.Param("depth", 1)
	b := dynblock.Expand(body, ctx)
	s1 := schemas[sym.Choice(len(schemas))]
	sym.Freeze(s1)
	c, d := b.Content(s1)
	attrs, blocks, errs := g.expand(items, nil, false, s1, nil, false)
	sym.ObserveInt("blocks", len(c.Blocks))
	sym.ObserveBool("errors", d.HasErrors())
	sym.Assert(d.HasErrors() == (errs > 0), "content: errors exactly where the written form has them")
	sym.Assert(c.MissingItemRange == body.MissingItemRange(), "content: missing item range")
	g.checkAttrs(attrs, c.Attributes, ctx, "content")
	g.checkBlocks(blocks, c.Blocks, ctx, depth, "content")
	if len(blocks) > 1 {
		sym.Cover("blocks")
	}
}

// Steps: content taken in two or three steps.
func Steps() {
	g := &gen{}
	items, body, ctx := g.make()
	depth := sym.Param("depth", 1)
	b := dynblock.Expand(body, ctx)
	s1, s2 := schemas[sym.Choice(len(schemas))], schemas[sym.Choice(len(schemas))]
	// a required attribute is not asked for again once taken
	sym.Assume(s2 != schemas[2] || s1 == schemas[1])
	sym.Freeze(s1)
	sym.Freeze(s2)
	c, rest, d := b.PartialContent(s1)
	attrs, blocks, errs := g.expand(items, nil, false, s1, nil, true)
	sym.Assert(d.HasErrors() == (errs > 0), "partial content: errors exactly where the written form has them")
	sym.Assert(c.MissingItemRange == body.MissingItemRange() && rest.MissingItemRange() == body.MissingItemRange(), "partial content: missing item range")
	g.checkAttrs(attrs, c.Attributes, ctx, "partial content")
	g.checkBlocks(blocks, c.Blocks, ctx, depth, "partial content")

	as, d := rest.JustAttributes()
	attrs, _, _ = g.expand(items, nil, false, inner, s1, true)
	g.checkAttrs(attrs, as, ctx, "remaining attributes")
	sym.Assert(d.HasErrors() == hasBlocks(items, s1), "remaining attributes: blocks are reported")

	c, d = rest.Content(s2)
	first := errs > 0
	attrs, blocks, errs = g.expand(items, nil, false, s2, s1, false)
	sym.ObserveInt("blocks", len(c.Blocks))
	sym.ObserveBool("errors", d.HasErrors())
	// an error already reported may be reported again
	sym.Assert(d.HasErrors() == (errs > 0) || first && errs == 0, "remaining content: errors exactly where the written form has them")
	g.checkAttrs(attrs, c.Attributes, ctx, "remaining content")
	g.checkBlocks(blocks, c.Blocks, ctx, depth, "remaining content")
	if sym.Param("steps", 2) == 2 {
		return
	}

	c, rest, d = rest.PartialContent(s2)
	attrs, blocks, errs = g.expand(items, nil, false, s2, s1, true)
	sym.Assert(d.HasErrors() == (errs > 0) || first && errs == 0, "second step: errors exactly where the written form has them")
	g.checkAttrs(attrs, c.Attributes, ctx, "second step")
	g.checkBlocks(blocks, c.Blocks, ctx, depth, "second step")
	first = first || errs > 0
	both := &hcl.BodySchema{}
	for _, s := range []*hcl.BodySchema{s1, s2} {
		both.Attributes = append(both.Attributes, s.Attributes...)
		both.Blocks = append(both.Blocks, s.Blocks...)
	}
	as, d = rest.JustAttributes()
	attrs, _, _ = g.expand(items, nil, false, inner, both, true)
	g.checkAttrs(attrs, as, ctx, "attributes after two steps")
	sym.Assert(d.HasErrors() == hasBlocks(items, both), "attributes after two steps: blocks are reported")
	c, d = rest.Content(inner)
	attrs, blocks, errs = g.expand(items, nil, false, inner, both, false)
	sym.Assert(d.HasErrors() == (errs > 0) || first && errs == 0, "third step: errors exactly where the written form has them")
	g.checkAttrs(attrs, c.Attributes, ctx, "third step")
	g.checkBlocks(blocks, c.Blocks, ctx, depth, "third step")
}

// free collects the names a body needs, those for expansion only or all.
func (g *gen) free(items []*item, sc *scope, s *hcl.BodySchema, all bool, out map[string]bool) {
	add := func(r ref, sc *scope) {
		if r.name != "" && !sc.has(r.name) {
			out[r.name] = true
		}
	}
	for _, it := range items {
		if it.kind == 0 {
			if all && lib.AttrS(s, it.name) != nil {
				add(it.expr, sc)
			}
			continue
		}
		bs := lib.BlockS(s, it.name)
		if it.kind == 1 {
			if bs != nil && len(it.labels) == len(bs.LabelNames) {
				g.free(it.body, sc, inner, all, out)
			}
			continue
		}
		if bs == nil {
			continue
		}
		name := it.iter
		if name == "" {
			name = it.name
		}
		child := sc.child(name, cty.DynamicVal, cty.DynamicVal)
		add(it.each, sc)
		for _, l := range it.lexprs {
			add(l, child)
		}
		g.free(it.body, child, inner, all, out)
	}
}

func walk(n dynblock.WalkVariablesNode, s *hcl.BodySchema, out map[string]bool) {
	vars, children := n.Visit(s)
	for _, v := range vars {
		out[v.RootName()] = true
	}
	for _, c := range children {
		// blocks of other types are not of interest
		if lib.BlockS(s, c.BlockTypeName) != nil {
			walk(c.Node, inner, out)
		}
	}
}

func sameNames(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for n := range a {
		if !b[n] {
			return false
		}
	}
	return true
}

func roots(ts []hcl.Traversal) map[string]bool {
	out := map[string]bool{}
	for _, t := range ts {
		out[t.RootName()] = true
	}
	return out
}

// spec is a specification for bodies of the inner schema.
func spec(depth int) hcldec.Spec {
	o := hcldec.ObjectSpec{
		"a": &hcldec.AttrSpec{Name: "a", Type: cty.DynamicPseudoType},
		"h": &hcldec.AttrSpec{Name: "h", Type: cty.DynamicPseudoType},
	}
	n := hcldec.Spec(hcldec.ObjectSpec{})
	if depth > 0 {
		n = spec(depth - 1)
	}
	o["f"] = &hcldec.BlockTupleSpec{TypeName: "f", Nested: hcldec.TupleSpec{&hcldec.BlockLabelSpec{Index: 1, Name: "y"}, &hcldec.BlockLabelSpec{Index: 0, Name: "x"}, n}}
	o["b"] = &hcldec.BlockTupleSpec{TypeName: "b", Nested: n}
	o["c"] = &hcldec.BlockTupleSpec{TypeName: "c", Nested: hcldec.TupleSpec{&hcldec.BlockLabelSpec{Index: 0, Name: "x"}, n}}
	return o
}

func subset(vars map[string]cty.Value, names map[string]bool) *hcl.EvalContext {
	out := map[string]cty.Value{}
	for n := range names {
		if v, ok := vars[n]; ok {
			out[n] = v
		}
	}
	return &hcl.EvalContext{Variables: out}
}

// Vars: the variables reported for a body with dynamic blocks.
func Vars() {
	g := &gen{}
	items, body, ctx := g.make()
	for _, it := range items {
		// the walk passes over blocks of types that are not of interest
		sym.Assume(it.kind != 2 || it.name != "g")
	}
	all, exp := map[string]bool{}, map[string]bool{}
	g.free(items, nil, inner, true, all)
	g.free(items, nil, inner, false, exp)
	gotAll, gotExp := map[string]bool{}, map[string]bool{}
	walk(dynblock.WalkVariables(body), inner, gotAll)
	walk(dynblock.WalkExpandVariables(body), inner, gotExp)
	sym.ObserveInt("all", len(gotAll))
	sym.ObserveInt("exp", len(gotExp))
	for n := range all {
		sym.Assert(gotAll[n], "every variable that is consulted is reported")
	}
	for n := range exp {
		sym.Assert(gotExp[n], "every variable that expansion consults is reported")
	}
	for n := range gotAll {
		sym.Assert(all[n], "no iterator is reported")
	}
	for n := range gotExp {
		sym.Assert(exp[n], "no iterator or content variable is reported for expansion")
	}
	sp := spec(sym.Param("depth", 1))
	sym.Assert(sameNames(roots(dynblock.VariablesHCLDec(body, sp)), gotAll), "the specification leads to the same variables")
	sym.Assert(sameNames(roots(dynblock.ExpandVariablesHCLDec(body, sp)), gotExp), "the specification leads to the same variables for expansion")

	// they suffice
	v1, d1 := hcldec.Decode(dynblock.Expand(body, ctx), sp, ctx)
	ectx := subset(g.vars, gotExp)
	b := dynblock.Expand(body, ectx)
	need := roots(hcldec.Variables(b, sp))
	for n := range need {
		sym.Assert(all[n], "no iterator is reported for the expanded body")
	}
	dctx := subset(g.vars, need)
	v2, d2 := hcldec.Decode(b, sp, dctx)
	sym.ObserveStr("v", lib.Show(v1))
	sym.Assert(d1.HasErrors() == d2.HasErrors(), "the reported variables give the same errors")
	if !d1.HasErrors() {
		sym.Assert(v1.RawEquals(v2), "the reported variables give the same value")
		sym.Cover("decoded")
	}
}

// AttrBlocks: blocks whose attributes are all taken.
func AttrBlocks() {
	g := &gen{}
	g.newVars()
	it := &item{kind: 1 + sym.Choice(2), name: "b"}
	in := &item{name: "a", expr: ref{name: []string{"v", "it"}[sym.Choice(2)], part: ""}}
	if sym.Choice(2) == 1 {
		in.expr = ref{name: "b", part: "key"}
	}
	if it.kind == 1 {
		g.w("b {\n")
	} else {
		it.each = []ref{{name: "l"}, {name: "u"}, {name: "e"}, {name: "b", part: "value"}}[sym.Choice(4)]
		it.iter = iterNames[sym.Choice(2)]
		g.w("dynamic \"b\" {\nfor_each = " + it.each.src() + "\n")
		if it.iter != "" {
			g.w("iterator = " + it.iter + "\n")
		}
		g.w("content {\n")
	}
	g.w("a = " + in.expr.src() + "\n}\n")
	if it.kind == 2 {
		g.w("}\n")
	}
	it.body = []*item{in}
	sym.ObserveBytes("src", g.src)
	f, diags := hclsyntax.ParseConfig(g.src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	sp := &hcldec.BlockAttrsSpec{TypeName: "b", ElementType: cty.DynamicPseudoType}
	want := map[string]bool{}
	g.free([]*item{it}, nil, inner, true, want)
	got := roots(dynblock.VariablesHCLDec(f.Body, sp))
	for n := range got {
		sym.Assert(want[n], "only variables of a block of attributes are reported")
	}
	ctx := &hcl.EvalContext{Variables: g.vars}
	b := dynblock.Expand(f.Body, ctx)
	v, d := hcldec.Decode(b, sp, ctx)
	sym.ObserveStr("v", lib.Show(v))
	_, blocks, _ := g.expand([]*item{it}, nil, false, inner, nil, false)
	sym.Assert(d.HasErrors() == (len(blocks) > 1), "blocks of attributes decode like those written out")
	if len(blocks) == 1 {
		w, _ := in.expr.eval(g, blocks[0].sc)
		if blocks[0].unk {
			w = cty.DynamicVal
		}
		sym.Assert(v.RawEquals(cty.MapVal(map[string]cty.Value{"a": w})), "blocks of attributes give the value written out")
		sym.Cover("value")
	}
	for n := range want {
		sym.Assert(got[n], "every variable of a block of attributes is reported")
	}
}
