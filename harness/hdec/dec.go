// Package hdec holds the harnesses about decoding with specifications.
package hdec

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// spec describes a specification for both the real and the reference decoder.
type spec struct {
	kind   string
	name   string
	ty     cty.Type
	val    cty.Value
	req    bool
	min    int
	max    int
	index  int
	labels []string
	keys   []string
	sub    []*spec
}

func object(kv ...interface{}) *spec {
	s := &spec{kind: "object"}
	for i := 0; i < len(kv); i += 2 {
		s.keys = append(s.keys, kv[i].(string))
		s.sub = append(s.sub, kv[i+1].(*spec))
	}
	return s
}
func tuple(sub ...*spec) *spec                { return &spec{kind: "tuple", sub: sub} }
func attr(name string, ty cty.Type) *spec     { return &spec{kind: "attr", name: name, ty: ty} }
func required(s *spec) *spec                  { s.req = true; return s }
func literal(v cty.Value) *spec               { return &spec{kind: "literal", val: v} }
func expr(name string) *spec                  { return &spec{kind: "expr", name: name} }
func label(i int, name string) *spec          { return &spec{kind: "label", index: i, name: name} }
func deflt(a, b *spec) *spec                  { return &spec{kind: "default", sub: []*spec{a, b}} }
func blocks(kind, name string, n *spec) *spec { return &spec{kind: kind, name: name, sub: []*spec{n}} }
func limits(s *spec, min, max int) *spec      { s.min, s.max = min, max; return s }
func keyed(s *spec, labels ...string) *spec   { s.labels = labels; return s }
func battrs(name string, ty cty.Type) *spec   { return &spec{kind: "attrs", name: name, ty: ty} }
func texpr(n *spec) *spec                     { return &spec{kind: "texpr", sub: []*spec{n}} }
func tfunc(n *spec) *spec                     { return &spec{kind: "tfunc", sub: []*spec{n}} }

var pair = function.New(&function.Spec{
	Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
	Type: func(args []cty.Value) (cty.Type, error) {
		return cty.Tuple([]cty.Type{args[0].Type(), cty.Bool}), nil
	},
	Impl: func(args []cty.Value, ret cty.Type) (cty.Value, error) {
		return cty.TupleVal([]cty.Value{args[0], cty.True}), nil
	},
})

func mustExpr(src string) hcl.Expression {
	e, diags := hclsyntax.ParseExpression([]byte(src), "spec", lib.Start)
	sym.Assert(!diags.HasErrors(), "expression of the specification")
	return e
}

// build makes the real specification.
func (s *spec) build() hcldec.Spec {
	var n hcldec.Spec
	if len(s.sub) > 0 {
		n = s.sub[0].build()
	}
	switch s.kind {
	case "object":
		o := hcldec.ObjectSpec{}
		for i, k := range s.keys {
			o[k] = s.sub[i].build()
		}
		return o
	case "tuple":
		var t hcldec.TupleSpec
		for _, e := range s.sub {
			t = append(t, e.build())
		}
		return t
	case "attr":
		return &hcldec.AttrSpec{Name: s.name, Type: s.ty, Required: s.req}
	case "literal":
		return &hcldec.LiteralSpec{Value: s.val}
	case "expr":
		return &hcldec.ExprSpec{Expr: mustExpr(s.name)}
	case "label":
		return &hcldec.BlockLabelSpec{Index: s.index, Name: s.name}
	case "default":
		return &hcldec.DefaultSpec{Primary: n, Default: s.sub[1].build()}
	case "block":
		return &hcldec.BlockSpec{TypeName: s.name, Nested: n, Required: s.req}
	case "list":
		return &hcldec.BlockListSpec{TypeName: s.name, Nested: n, MinItems: s.min, MaxItems: s.max}
	case "btuple":
		return &hcldec.BlockTupleSpec{TypeName: s.name, Nested: n, MinItems: s.min, MaxItems: s.max}
	case "set":
		return &hcldec.BlockSetSpec{TypeName: s.name, Nested: n, MinItems: s.min, MaxItems: s.max}
	case "map":
		return &hcldec.BlockMapSpec{TypeName: s.name, Nested: n, LabelNames: s.labels}
	case "bobject":
		return &hcldec.BlockObjectSpec{TypeName: s.name, Nested: n, LabelNames: s.labels}
	case "attrs":
		return &hcldec.BlockAttrsSpec{TypeName: s.name, ElementType: s.ty, Required: s.req}
	case "texpr":
		return &hcldec.TransformExprSpec{Wrapped: n, Expr: mustExpr("[w, k[w]]"), VarName: "w", TransformCtx: &hcl.EvalContext{Variables: map[string]cty.Value{"k": k}}}
	case "tfunc":
		return &hcldec.TransformFuncSpec{Wrapped: n, Func: pair}
	}
	panic("kind " + s.kind)
}

var k = cty.MapVal(map[string]cty.Value{"x": cty.StringVal("kx"), "1": cty.StringVal("k1")})

// labelCount is the number of labels nested specifications use.
func (s *spec) labelNames() []string {
	var out []string
	set := func(i int, n string) {
		for len(out) <= i {
			out = append(out, "")
		}
		out[i] = n
	}
	var walk func(s *spec)
	walk = func(s *spec) {
		switch s.kind {
		case "label":
			set(s.index, s.name)
		case "object", "tuple", "default", "texpr", "tfunc":
			for _, e := range s.sub {
				walk(e)
			}
		}
	}
	walk(s)
	return out
}

// schema is the schema of the body the specification is applied to.
func (s *spec) schema(out *hcl.BodySchema) {
	switch s.kind {
	case "attr":
		for i, a := range out.Attributes {
			if a.Name == s.name {
				out.Attributes[i].Required = a.Required || s.req
				return
			}
		}
		out.Attributes = append(out.Attributes, hcl.AttributeSchema{Name: s.name, Required: s.req})
	case "object", "tuple", "default", "texpr", "tfunc":
		for _, e := range s.sub {
			e.schema(out)
		}
	case "attrs":
		out.Blocks = append(out.Blocks, hcl.BlockHeaderSchema{Type: s.name})
	case "block", "list", "btuple", "set", "map", "bobject":
		ls := append(append([]string(nil), s.labels...), s.sub[0].labelNames()...)
		out.Blocks = append(out.Blocks, hcl.BlockHeaderSchema{Type: s.name, LabelNames: ls})
	}
}

// implied is the type a specification promises.
func (s *spec) implied() cty.Type {
	switch s.kind {
	case "object":
		m := map[string]cty.Type{}
		for i, k := range s.keys {
			m[k] = s.sub[i].implied()
		}
		return cty.Object(m)
	case "tuple":
		var ts []cty.Type
		for _, e := range s.sub {
			ts = append(ts, e.implied())
		}
		return cty.Tuple(ts)
	case "attr":
		return s.ty
	case "literal":
		return s.val.Type()
	case "label":
		return cty.String
	case "default", "block":
		return s.sub[0].implied()
	case "list":
		return cty.List(s.sub[0].implied())
	case "set":
		return cty.Set(s.sub[0].implied())
	case "map":
		t := s.sub[0].implied()
		for range s.labels {
			t = cty.Map(t)
		}
		return t
	case "attrs":
		return cty.Map(s.ty)
	case "tfunc":
		return cty.Tuple([]cty.Type{s.sub[0].implied(), cty.Bool})
	}
	if s.kind == "texpr" {
		return cty.Tuple([]cty.Type{s.sub[0].implied(), cty.String})
	}
	return cty.DynamicPseudoType
}

// ref is the reference decoder: the value, and whether there are errors.
type ref struct {
	ctx  *hcl.EvalContext
	errs int
	vals map[string]cty.Value

	emptyMap bool // no blocks of a type with several labels
}

func (r *ref) body(s *spec, items []*lib.RItem, labels []string, partial bool) cty.Value {
	sch := &hcl.BodySchema{}
	s.schema(sch)
	c := lib.RefExtract(items, nil, sch, partial)
	r.errs += len(c.Errs) + c.Missing
	return r.decode(s, c, labels)
}

func (r *ref) attr(it *lib.RItem, ty cty.Type) cty.Value {
	v, ok := r.vals[it.Text]
	if !ok {
		r.errs++
		return cty.UnknownVal(ty)
	}
	out, err := convert.Convert(v, ty)
	if err != nil {
		r.errs++
		return cty.UnknownVal(ty)
	}
	return out
}

func (r *ref) decode(s *spec, c *lib.RContent, labels []string) cty.Value {
	switch s.kind {
	case "object":
		m := map[string]cty.Value{}
		for i, k := range s.keys {
			m[k] = r.decode(s.sub[i], c, labels)
		}
		return cty.ObjectVal(m)
	case "tuple":
		var vs []cty.Value
		for _, e := range s.sub {
			vs = append(vs, r.decode(e, c, labels))
		}
		return cty.TupleVal(vs)
	case "attr":
		for _, it := range c.Attrs {
			if it.Name == s.name {
				return r.attr(it, s.ty)
			}
		}
		return cty.NullVal(s.ty)
	case "literal":
		return s.val
	case "expr":
		v, ok := r.vals[s.name]
		if !ok {
			r.errs++
			return cty.DynamicVal
		}
		return v
	case "label":
		return cty.StringVal(labels[s.index])
	case "default":
		v := r.decode(s.sub[0], c, labels)
		if v.IsNull() {
			return r.decode(s.sub[1], c, labels)
		}
		return v
	case "tfunc":
		e := r.errs
		v := r.decode(s.sub[0], c, labels)
		if r.errs > e {
			return cty.DynamicVal
		}
		return cty.TupleVal([]cty.Value{v, cty.True})
	case "texpr":
		e := r.errs
		v := r.decode(s.sub[0], c, labels)
		if r.errs > e {
			return cty.DynamicVal
		}
		kv := cty.UnknownVal(cty.String)
		if v.IsKnown() {
			key, err := convert.Convert(v, cty.String)
			if err != nil || key.IsNull() || !k.HasIndex(key).True() {
				r.errs++
				return cty.DynamicVal
			}
			kv = k.Index(key)
		}
		return cty.TupleVal([]cty.Value{v, kv})
	}

	var bs []*lib.RItem
	for _, it := range c.Blocks {
		if it.Name == s.name {
			bs = append(bs, it)
		}
	}
	switch s.kind {
	case "attrs":
		if len(bs) == 0 {
			if s.req {
				r.errs++
			}
			return cty.NullVal(cty.Map(s.ty))
		}
		if len(bs) > 1 {
			r.errs++
		}
		m := map[string]cty.Value{}
		for _, it := range bs[0].Body {
			if it.Block {
				r.errs++
				continue
			}
			m[it.Name] = r.attr(it, s.ty)
		}
		if len(m) == 0 {
			return cty.MapValEmpty(s.ty)
		}
		if s.ty == cty.DynamicPseudoType && r.errs == 0 {
			var ns []string
			var vs []cty.Value
			for _, it := range bs[0].Body {
				ns, vs = append(ns, it.Name), append(vs, m[it.Name])
			}
			if !r.unify(vs) {
				return cty.DynamicVal
			}
			for i, n := range ns {
				m[n] = vs[i]
			}
		}
		if r.errs > 0 {
			return cty.DynamicVal
		}
		return cty.MapVal(m)
	case "block":
		if len(bs) == 0 {
			if s.req {
				r.errs++
			}
			return cty.NullVal(s.sub[0].implied())
		}
		if len(bs) > 1 {
			r.errs++
		}
		return r.body(s.sub[0], bs[0].Body, bs[0].Labels, false)
	case "map", "bobject":
		m := &node{}
		for _, b := range bs {
			v := r.body(s.sub[0], b.Body, b.Labels[len(s.labels):], false)
			if !m.put(b.Labels[:len(s.labels)], v) {
				r.errs++
			}
		}
		if r.errs > 0 {
			return cty.DynamicVal
		}
		if s.kind == "map" {
			r.emptyMap = r.emptyMap || len(bs) == 0 && len(s.labels) > 1
			return m.asMap(s.sub[0].implied(), len(s.labels))
		}
		return m.asObject(len(s.labels))
	}
	var vs []cty.Value
	for _, b := range bs {
		vs = append(vs, r.body(s.sub[0], b.Body, b.Labels, false))
	}
	if len(vs) < s.min || s.max > 0 && len(vs) > s.max {
		r.errs++
	}
	if r.errs > 0 {
		return cty.DynamicVal
	}
	if s.kind == "btuple" {
		return cty.TupleVal(vs)
	}
	if len(vs) == 0 {
		if s.kind == "set" {
			return cty.SetValEmpty(s.sub[0].implied())
		}
		return cty.ListValEmpty(s.sub[0].implied())
	}
	if !r.unify(vs) {
		return cty.DynamicVal
	}
	if s.kind == "set" {
		return cty.SetVal(vs)
	}
	return cty.ListVal(vs)
}

// unify converts elements of a collection to a single type, by the rules of
// the type system.
func (r *ref) unify(vs []cty.Value) bool {
	var tys []cty.Type
	for _, v := range vs {
		tys = append(tys, v.Type())
	}
	ty, convs := convert.UnifyUnsafe(tys)
	if ty == cty.NilType {
		r.errs++
		return false
	}
	first := cty.DynamicPseudoType
	for i := range vs {
		if convs[i] != nil {
			nv, err := convs[i](vs[i])
			if err != nil {
				r.errs++
				return false
			}
			vs[i] = nv
		}
		if t := vs[i].Type(); first == cty.DynamicPseudoType {
			first = t
		} else if t != cty.DynamicPseudoType && !t.Equals(first) {
			r.errs++
			return false
		}
	}
	return true
}

// node is a mapping by several labels.
type node struct {
	keys []string
	sub  []*node
	val  cty.Value
}

func (n *node) put(labels []string, v cty.Value) bool {
	if len(labels) == 0 {
		if n.val != cty.NilVal {
			return false
		}
		n.val = v
		return true
	}
	for i, k := range n.keys {
		if k == labels[0] {
			return n.sub[i].put(labels[1:], v)
		}
	}
	c := &node{}
	n.keys, n.sub = append(n.keys, labels[0]), append(n.sub, c)
	return c.put(labels[1:], v)
}

func (n *node) asMap(ty cty.Type, depth int) cty.Value {
	if depth == 0 {
		return n.val
	}
	if len(n.keys) == 0 {
		for ; depth > 1; depth-- {
			ty = cty.Map(ty)
		}
		return cty.MapValEmpty(ty)
	}
	m := map[string]cty.Value{}
	for i, k := range n.keys {
		m[k] = n.sub[i].asMap(ty, depth-1)
	}
	return cty.MapVal(m)
}

func (n *node) asObject(depth int) cty.Value {
	if depth == 0 {
		return n.val
	}
	m := map[string]cty.Value{}
	for i, k := range n.keys {
		m[k] = n.sub[i].asObject(depth - 1)
	}
	return cty.ObjectVal(m)
}

var str, num, dyn = cty.String, cty.Number, cty.DynamicPseudoType

// specs are functions because every path builds its own.
var specs = []func() *spec{
	func() *spec { return object("x", attr("a", str), "y", required(attr("b", num))) },
	func() *spec { return tuple(attr("a", dyn), literal(cty.True), expr("v")) },
	func() *spec { return deflt(attr("a", str), literal(cty.StringVal("d"))) },
	func() *spec { return deflt(attr("a", str), required(attr("b", str))) },
	func() *spec { return object("x", required(attr("a", str)), "y", required(attr("a", num))) },
	func() *spec { return blocks("block", "b", object("x", attr("a", str))) },
	func() *spec { return required(blocks("block", "b", tuple(label(0, "l"), attr("a", num)))) },
	func() *spec {
		return limits(blocks("list", "b", object("x", attr("a", str), "l", label(0, "l"))), 1, 1)
	},
	func() *spec { return limits(blocks("list", "b", attr("a", dyn)), 0, 2) },
	func() *spec { return limits(blocks("btuple", "b", attr("a", dyn)), 2, 2) },
	func() *spec { return limits(blocks("btuple", "b", deflt(attr("a", dyn), label(0, "l"))), 0, 1) },
	func() *spec { return limits(blocks("set", "b", attr("a", str)), 1, 2) },
	func() *spec { return blocks("set", "b", object("x", attr("a", dyn))) },
	func() *spec { return keyed(blocks("map", "b", attr("a", str)), "k") },
	func() *spec { return keyed(blocks("map", "b", object("x", attr("a", num))), "k", "m") },
	func() *spec { return keyed(blocks("map", "b", tuple(label(0, "l"), attr("a", str))), "k") },
	func() *spec { return keyed(blocks("bobject", "b", attr("a", dyn)), "k") },
	func() *spec { return keyed(blocks("bobject", "b", deflt(attr("a", str), label(0, "l"))), "k") },
	func() *spec { return keyed(blocks("bobject", "b", attr("a", dyn)), "k", "m") },
	func() *spec { return battrs("b", str) },
	func() *spec { return required(battrs("b", num)) },
	func() *spec { return battrs("b", dyn) },
	func() *spec {
		return deflt(blocks("block", "b", object("x", attr("a", str))), literal(cty.ObjectVal(map[string]cty.Value{"x": cty.StringVal("d")})))
	},
	func() *spec { return texpr(attr("a", str)) },
	func() *spec {
		return object("t", tfunc(attr("a", dyn)), "b", blocks("list", "b", tfunc(attr("a", str))))
	},
	func() *spec {
		return object("b", blocks("list", "b", blocks("block", "a", attr("a", str))), "c", attr("b", str))
	},
	func() *spec {
		return tuple(limits(blocks("list", "b", blocks("btuple", "b", attr("a", str))), 0, 2), attr("b", num))
	},
	func() *spec { return object("x", blocks("block", "a", object()), "y", blocks("list", "b", tuple())) },
	func() *spec { return keyed(blocks("map", "b", object("x", texpr(attr("a", str)))), "k") },
	func() *spec { return blocks("list", "b", blocks("list", "b", attr("a", dyn))) },
	func() *spec { return keyed(blocks("map", "b", tuple(label(0, "l"), attr("a", str))), "k", "m") },
	func() *spec { return keyed(blocks("bobject", "b", tuple(label(0, "l"), label(1, "n"))), "k", "m") },
	func() *spec { return blocks("list", "b", tuple(label(1, "m"), label(0, "l"))) },
}

func one() cty.Value {
	e := mustExpr("1")
	v, _ := e.Value(nil)
	return v
}

func vals(c cty.Value) map[string]cty.Value {
	return map[string]cty.Value{
		"1": one(), "\"x\"": cty.StringVal("x"), "v": c, "null": cty.NullVal(cty.DynamicPseudoType),
		"u": cty.UnknownVal(cty.String), "d": cty.DynamicVal, "[]": cty.EmptyTupleVal,
	}
}

var exprs = []string{"1", "\"x\"", "v", "u", "null", "d", "[]", "nope"}

func exprText() string { return exprs[sym.Param("skip", 0)+sym.Choice(sym.Param("e", len(exprs)))] }

func scope(c cty.Value) *hcl.EvalContext {
	return &hcl.EvalContext{Variables: map[string]cty.Value{"v": c, "u": cty.UnknownVal(cty.String), "d": cty.DynamicVal}}
}

// Decode: every body under every specification of the list.
func Decode() {
	lo, hi := sym.Param("from", 0), sym.Param("to", len(specs))
	s := specs[lo+sym.Choice(hi-lo)]()
	g := &lib.GenBody{Names: "ab", Left: sym.Param("n", 2), MaxLabels: sym.Param("labels", 2), Expr: exprText}
	items := g.Body(sym.Param("depth", 1))
	decode(s, g.Src, items)
}

func decode(s *spec, src []byte, items []*lib.RItem) {
	sym.ObserveStr("src", string(src))
	sym.ObserveStr("spec", s.kind)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	c := lib.StrC("x1z")
	ctx := scope(c)
	sym.Freeze(ctx)
	real := s.build()
	ty := hcldec.ImpliedType(real)
	prop := sym.Param("prop", 0)
	check := func(p int, c bool, msg string) {
		if prop == 0 || prop == p {
			sym.Assert(c, msg)
		}
	}
	check(1, ty.Equals(s.implied()), "the implied type depends only on the specification")
	partial := sym.Param("partial", 0) == 1
	var v cty.Value
	var rem hcl.Body
	if partial {
		v, rem, diags = hcldec.PartialDecode(f.Body, real, ctx)
	} else {
		v, diags = hcldec.Decode(f.Body, real, ctx)
	}
	sym.ObserveStr("value", lib.Show(v))
	sym.ObserveBool("errors", diags.HasErrors())
	check(1, v != cty.NilVal, "a value is returned")
	for _, d := range diags {
		check(1, d.Severity == hcl.DiagError && d.Summary != "" && d.Subject != nil, "diagnostics are complete")
	}
	r := &ref{ctx: ctx, vals: vals(c)}
	want := r.body(s, items, nil, partial)
	if r.emptyMap {
		return // see EmptyMap
	}
	if !diags.HasErrors() {
		check(1, len(v.Type().TestConformance(ty)) == 0, "the value conforms to the implied type")
	}
	if r.errs > 0 {
		sym.Cover("errors")
		check(2, diags.HasErrors(), "every problem is reported")
	} else {
		sym.Cover("decoded")
		check(2, !diags.HasErrors(), "correct content is accepted")
		check(2, v.RawEquals(want), "the value holds exactly the content")
	}
	if partial && prop != 1 && prop != 3 {
		sch := &hcl.BodySchema{}
		s.schema(sch)
		c := lib.RefExtract(items, nil, sch, true)
		as, d := rem.JustAttributes()
		lib.CheckAttrs(lib.LeftAttrs(items, c), as, "leftovers")
		check(2, d.HasErrors() == (len(lib.LeftBlocks(items, c)) > 0), "leftover blocks")
	}
	if prop == 2 {
		return
	}
	rng := hcldec.SourceRange(f.Body, real)
	if rng.Filename == "t.hcl" {
		check(1, rng.Start.Byte >= 0 && rng.Start.Byte <= rng.End.Byte && rng.End.Byte <= len(src), "the source range lies in the file")
	}
	hcldec.ChildBlockTypes(real)

	// the variables reported are sufficient
	if prop == 1 {
		return
	}
	part := map[string]cty.Value{}
	for _, tr := range hcldec.Variables(f.Body, real) {
		n := tr.RootName()
		if cv, ok := ctx.Variables[n]; ok {
			part[n] = cv
		} else {
			check(3, n == "nope", "only mentioned names are reported")
		}
	}
	pctx := &hcl.EvalContext{Variables: part}
	var pv cty.Value
	var pd hcl.Diagnostics
	if partial {
		pv, _, pd = hcldec.PartialDecode(f.Body, real, pctx)
	} else {
		pv, pd = hcldec.Decode(f.Body, real, pctx)
	}
	check(3, pd.HasErrors() == diags.HasErrors(), "the reported variables give the same errors")
	if !diags.HasErrors() {
		check(3, pv.RawEquals(v), "the reported variables are sufficient")
	}
}

// EmptyMap: no blocks of a type with several labels.
func EmptyMap() {
	s := keyed(blocks("map", "b", attr("a", str)), "k", "m")
	src := []byte{'a', sym.ByteIn(" \n")}
	sym.ObserveBytes("src", src)
	f, _ := hclsyntax.ParseConfig(src[1:], "t.hcl", lib.Start)
	v, diags := hcldec.Decode(f.Body, s.build(), nil)
	sym.Assert(!diags.HasErrors() && len(v.Type().TestConformance(s.implied())) == 0, "no blocks with several labels give an empty map of the implied type")
}

// fit writes a body that suits a specification: any subset of its
// attributes and up to max blocks of each type.
type fit struct {
	src []byte
	max int
}

func (g *fit) attr(name string) *lib.RItem {
	it := &lib.RItem{Name: name, Pos: len(g.src)}
	g.src = append(g.src, name+" = "...)
	it.ExprPos = len(g.src)
	it.Text = exprText()
	g.src = append(g.src, it.Text...)
	it.ExprEnd = len(g.src)
	g.src = append(g.src, '\n')
	return it
}

func (g *fit) body(s *spec) []*lib.RItem {
	sch := &hcl.BodySchema{}
	s.schema(sch)
	var items []*lib.RItem
	for _, a := range sch.Attributes {
		if sym.Choice(2) == 1 {
			items = append(items, g.attr(a.Name))
		}
	}
	for _, b := range sch.Blocks {
		n := s.find(b.Type)
		for i := sym.Choice(g.max + 1); i > 0; i-- {
			it := &lib.RItem{Block: true, Name: b.Type, Pos: len(g.src)}
			g.src = append(g.src, b.Type...)
			for range b.LabelNames {
				l := string([]byte{sym.ByteIn("pq")})
				it.Labels = append(it.Labels, l)
				it.LabelPos = append(it.LabelPos, len(g.src)+1)
				g.src = append(g.src, " \""+l+"\""...)
			}
			g.src = append(g.src, ' ')
			it.Open = len(g.src)
			g.src = append(g.src, '{', '\n')
			if n.kind == "attrs" {
				names := []string{"a", "c", "e"}[:2+sym.Param("gen", 0)]
				if len(names) == 3 && len(items) > 0 {
					names = names[:1]
				}
				for _, name := range names {
					if sym.Choice(2) == 1 {
						it.Body = append(it.Body, g.attr(name))
					}
				}
			} else {
				it.Body = g.body(n.sub[0])
			}
			g.src = append(g.src, '}', '\n')
			items = append(items, it)
		}
	}
	return items
}

// find returns the specification of a block type.
func (s *spec) find(typ string) *spec {
	switch s.kind {
	case "object", "tuple", "default", "texpr", "tfunc":
		for _, e := range s.sub {
			if f := e.find(typ); f != nil {
				return f
			}
		}
	case "attr", "literal", "label", "expr":
	default:
		if s.name == typ {
			return s
		}
	}
	return nil
}

// leaves are the specifications of nested bodies that gen uses.
var leaves = []func(ty cty.Type) *spec{
	func(ty cty.Type) *spec { return attr("a", ty) },
	func(ty cty.Type) *spec { return tuple(label(0, "l"), attr("a", ty)) },
	func(ty cty.Type) *spec { return object("m", label(1, "m"), "a", required(attr("a", ty)), "l", label(0, "l")) },
	func(ty cty.Type) *spec { return deflt(deflt(label(2, "n"), label(0, "l")), label(1, "m")) },
	func(ty cty.Type) *spec { return deflt(attr("a", str), label(0, "l")) },
	func(ty cty.Type) *spec { return tfunc(tuple(label(1, "m"), texpr(attr("a", str)), label(0, "l"))) },
}

var blockKinds = []string{"block", "list", "btuple", "set", "map", "bobject", "attrs"}

// gen makes a specification of blocks: every kind with every nested
// specification, limits and numbers of labels, alone, with a default, in a
// tuple or transformed.
func gen() *spec {
	kind := blockKinds[sym.Choice(len(blockKinds))]
	ty := []cty.Type{str, dyn}[sym.Choice(2)]
	leaf := 0
	var s *spec
	if kind == "attrs" {
		s = battrs("b", ty)
		s.req = sym.Bool()
	} else {
		if kind == "map" {
			ty = str // documented
		}
		leaf = sym.Choice(len(leaves))
		s = blocks(kind, "b", leaves[leaf](ty))
	}
	switch kind {
	case "block":
		s.req = sym.Bool()
	case "list", "btuple", "set":
		if leaf < 2 {
			s.min, s.max = sym.Choice(3), sym.Choice(3)
		}
	case "map", "bobject":
		s.labels = []string{"k", "j"}[:1+sym.Choice(2)]
	}
	if leaf < 2 {
		switch sym.Choice(4) {
		case 1:
			d := attr("c", s.implied())
			d.req = sym.Bool()
			return deflt(s, d)
		case 2:
			return tuple(attr("c", num), s)
		case 3:
			return tfunc(s)
		}
	}
	return s
}

// Fit: bodies that suit the specification.
func Fit() {
	lo, hi := sym.Param("from", 0), sym.Param("to", len(specs))
	var s *spec
	if sym.Param("gen", 0) == 1 {
		s = gen()
	} else {
		s = specs[lo+sym.Choice(hi-lo)]()
	}
	g := &fit{max: sym.Param("max", 2)}
	items := g.body(s)
	decode(s, g.src, items)
}
