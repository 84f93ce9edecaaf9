// Package hgo holds the harnesses about Go structs.
package hgo

import (
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// value is a way of writing a value and what it gives as string, number,
// truth value and list of strings; nil where it does not convert.
type value struct {
	text string
	null bool
	s    *string
	n    *int
	b    *bool
	l    []string
	list bool
}

func str(s string) *string { return &s }
func num(n int) *int       { return &n }
func boolean(b bool) *bool { return &b }

var ctx = &hcl.EvalContext{Variables: map[string]cty.Value{"v": cty.StringVal("w")}}

// anyValue chooses a value.
func anyValue() *value {
	switch sym.Choice(sym.Param("values", 10)) {
	case 0:
		c := string([]byte{sym.ByteIn("pqx")})
		return &value{text: "\"" + c + "\"", s: &c}
	case 1:
		d := sym.ByteIn("0159")
		return &value{text: string([]byte{d}), s: str(string([]byte{d})), n: num(int(d - '0'))}
	case 2:
		return &value{text: "null", null: true}
	case 3:
		return &value{text: "[\"x\", 1]", l: []string{"x", "1"}, list: true}
	case 4:
		return &value{text: "true", s: str("true"), b: boolean(true)}
	case 5:
		return &value{text: "u"}
	case 6:
		d := sym.ByteIn("37")
		return &value{text: "\"" + string([]byte{d}) + "\"", s: str(string([]byte{d})), n: num(int(d - '0'))}
	case 7:
		return &value{text: "1.5", s: str("1.5")}
	case 8:
		return &value{text: "v", s: str("w")}
	}
	return &value{text: "[]", list: true}
}

// gen generates and parses a body with such values.
func gen(names string, n, labels, depth int) (hcl.Body, []byte, []*lib.RItem, map[*lib.RItem]*value) {
	var order []*value
	g := &lib.GenBody{Names: names, Left: n, MaxLabels: labels}
	g.Expr = func() string {
		v := anyValue()
		order = append(order, v)
		return v.text
	}
	items := g.Body(depth)
	vals := map[*lib.RItem]*value{}
	var walk func(items []*lib.RItem)
	walk = func(items []*lib.RItem) {
		for _, it := range items {
			if it.Block {
				walk(it.Body)
			} else {
				vals[it] = order[0]
				order = order[1:]
			}
		}
	}
	walk(items)
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	return f.Body, g.Src, items, vals
}

// want describes the decoding of a body: whether it fails, and the values.
type want struct {
	*lib.RContent
	vals map[*lib.RItem]*value
	fail bool
}

func wanted(items []*lib.RItem, vals map[*lib.RItem]*value, s *hcl.BodySchema, partial bool) *want {
	r := lib.RefExtract(items, nil, s, partial)
	return &want{r, vals, len(r.Errs) > 0 || r.Missing > 0}
}

func (w *want) attr(name string) *value {
	for _, it := range w.Attrs {
		if it.Name == name {
			return w.vals[it]
		}
	}
	return nil
}

func (w *want) blocks(name string) (ret []*lib.RItem) {
	for _, it := range w.Blocks {
		if it.Name == name {
			ret = append(ret, it)
		}
	}
	return ret
}

// The expectations about one field: a value that does not convert makes the
// decoding fail, and otherwise the field has the value.

func (w *want) str(name, got string) {
	v := w.attr(name)
	switch {
	case v == nil:
		w.check(got == "", "an absent string is not set")
	case v.s == nil:
		w.fail = true
	default:
		w.check(got == *v.s, "a string is set")
	}
}

func (w *want) strPtr(name string, got *string) {
	v := w.attr(name)
	switch {
	case v == nil || v.null:
		w.check(got == nil, "an absent or null string is nil")
	case v.s == nil:
		w.fail = true
	default:
		w.check(got != nil && *got == *v.s, "an optional string is set")
	}
}

func (w *want) num(name string, got int) {
	v := w.attr(name)
	switch {
	case v == nil:
		w.check(got == 0, "an absent number is not set")
	case v.n == nil:
		w.fail = true
	default:
		w.check(got == *v.n, "a number is set")
	}
}

func (w *want) numPtr(name string, got *int) {
	v := w.attr(name)
	switch {
	case v == nil || v.null:
		w.check(got == nil, "an absent or null number is nil")
	case v.n == nil:
		w.fail = true
	default:
		w.check(got != nil && *got == *v.n, "an optional number is set")
	}
}

func (w *want) boolean(name string, got bool) {
	v := w.attr(name)
	switch {
	case v == nil:
		w.check(!got, "an absent truth value is not set")
	case v.b == nil:
		w.fail = true
	default:
		w.check(got == *v.b, "a truth value is set")
	}
}

func (w *want) strs(name string, got []string) {
	v := w.attr(name)
	switch {
	case v == nil || v.null:
		w.check(got == nil, "an absent or null list is nil")
	case !v.list:
		w.fail = true
	default:
		w.check(len(got) == len(v.l), "a list has its elements")
		for i := range v.l {
			if i < len(got) {
				w.check(got[i] == v.l[i], "the elements of a list are in order")
			}
		}
	}
}

func (w *want) check(c bool, what string) { sym.Assert(c, what) }

func (w *want) done(src []byte, diags hcl.Diagnostics) {
	lib.DiagsOK(src, diags, "decoding")
	sym.Assert(diags.HasErrors() == w.fail, "exactly wrong bodies are reported")
	if w.fail {
		sym.Cover("wrong")
	} else {
		sym.Cover("right")
	}
}

type inner struct {
	Name string  `hcl:"name,label"`
	A    *string `hcl:"a"`
	B    bool    `hcl:"b,optional"`
	C    *inner2 `hcl:"c,block"`
	Not  string
}

type inner2 struct {
	A []string `hcl:"a"`
}

type outer struct {
	A string  `hcl:"a"`
	B *int    `hcl:"b,attr"`
	C []inner `hcl:"c,block"`
	D *inner  `hcl:"d,block"`
}

type pointers struct {
	A int       `hcl:"a,optional"`
	B []*inner2 `hcl:"b,block"`
	C inner2    `hcl:"c,block"`
}

var innerSchema = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "c"}},
}

var inner2Schema = &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}}}

func (w *want) inner(it *lib.RItem, got *inner) {
	if got == nil {
		sym.Fail("a block is set")
		return
	}
	n := wanted(it.Body, w.vals, innerSchema, false)
	n.strPtr("a", got.A)
	n.boolean("b", got.B)
	n.single("c", got.C)
	sym.Assert(got.Name == it.Labels[0], "a label is set")
	sym.Assert(got.Not == "", "other fields are left alone")
	w.fail = w.fail || n.fail
	sym.Cover("inner")
}

func (w *want) inner2(it *lib.RItem, got *inner2) {
	if got == nil {
		sym.Fail("a block is set")
		return
	}
	n := wanted(it.Body, w.vals, inner2Schema, false)
	n.strs("a", got.A)
	w.fail = w.fail || n.fail
}

// single is about a pointer to a block.
func (w *want) single(name string, got *inner2) {
	bs := w.blocks(name)
	switch {
	case len(bs) == 0:
		sym.Assert(got == nil, "an absent block is nil")
	case len(bs) > 1:
		w.fail = true
	default:
		w.inner2(bs[0], got)
	}
}

// Struct: any body decoded into structs with attributes and blocks.
func Struct() {
	body, src, items, vals := gen("abcd", sym.Param("n", 2), 1, sym.Param("depth", 1))
	decodeStruct(sym.Choice(2), body, src, items, vals)
}

// Shape: bodies of the right shape.
func Shape() {
	vals := map[*lib.RItem]*value{}
	var src []byte
	attr := func(name string) *lib.RItem {
		it := &lib.RItem{Name: name}
		vals[it] = anyValue()
		src = append(src, name+" = "+vals[it].text+"\n"...)
		return it
	}
	block := func(name string, labels []string, body func() []*lib.RItem) *lib.RItem {
		it := &lib.RItem{Name: name, Block: true, Labels: labels}
		src = append(src, name...)
		for _, l := range labels {
			src = append(src, " \""+l+"\""...)
		}
		src = append(src, " {\n"...)
		it.Body = body()
		src = append(src, "}\n"...)
		return it
	}
	inner2 := func(n int) func() []*lib.RItem {
		return func() (ret []*lib.RItem) {
			if n > 0 {
				ret = append(ret, attr("a"))
			}
			return ret
		}
	}
	inner := func() (ret []*lib.RItem) {
		switch sym.Choice(5) {
		case 1:
			ret = append(ret, attr("a"))
		case 2:
			ret = append(ret, attr("b"))
		case 3:
			ret = append(ret, block("c", nil, inner2(sym.Choice(2))))
		case 4:
			ret = append(ret, block("c", nil, inner2(0)), block("c", nil, inner2(1)))
		}
		return ret
	}
	var items []*lib.RItem
	if sym.Bool() {
		items = append(items, &lib.RItem{Name: "a"})
		vals[items[0]] = &value{text: "1", s: str("1"), n: num(1)}
		src = append(src, "a = 1\n"...)
	}
	label := func() []string { return []string{string([]byte{sym.ByteIn("xy")})} }
	k := sym.Choice(2)
	for i := sym.Choice(3); i > 0; i-- {
		if k == 0 {
			name := []string{"c", "d"}[sym.Choice(2)]
			items = append(items, block(name, label(), inner))
		} else {
			name := []string{"b", "c"}[sym.Choice(2)]
			items = append(items, block(name, nil, inner2(sym.Choice(2))))
		}
	}
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	decodeStruct(k, f.Body, src, items, vals)
}

func decodeStruct(k int, body hcl.Body, src []byte, items []*lib.RItem, vals map[*lib.RItem]*value) {
	switch k {
	case 0:
		got := outer{C: []inner{{Name: "old"}}, D: &inner{}} // decoded into before
		diags := gohcl.DecodeBody(body, ctx, &got)
		w := wanted(items, vals, &hcl.BodySchema{
			Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "b"}},
			Blocks:     []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"name"}}, {Type: "d", LabelNames: []string{"name"}}},
		}, false)
		w.str("a", got.A)
		w.numPtr("b", got.B)
		cs, ds := w.blocks("c"), w.blocks("d")
		sym.Assert(len(got.C) == len(cs), "all the blocks")
		for i := range got.C {
			if i < len(cs) {
				w.inner(cs[i], &got.C[i])
			}
		}
		switch len(ds) {
		case 0:
			sym.Assert(got.D == nil, "an absent block is nil")
		case 1:
			w.inner(ds[0], got.D)
		default:
			w.fail = true
		}
		w.done(src, diags)
		sym.ObserveStr("a", got.A)
	case 1:
		got := pointers{B: []*inner2{{}, {}, {}, {}}}
		diags := gohcl.DecodeBody(body, ctx, &got)
		w := wanted(items, vals, &hcl.BodySchema{
			Attributes: []hcl.AttributeSchema{{Name: "a"}},
			Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "c"}},
		}, false)
		w.num("a", got.A)
		bs, cs := w.blocks("b"), w.blocks("c")
		sym.Assert(len(got.B) == len(bs), "all the blocks")
		for i := range got.B {
			if i < len(bs) {
				w.inner2(bs[i], got.B[i])
			}
		}
		if len(cs) == 1 {
			w.inner2(cs[0], &got.C)
		} else {
			w.fail = true
		}
		w.done(src, diags)
		sym.ObserveInt("a", got.A)
	}
}

type restBody struct {
	A    *string  `hcl:"a"`
	C    *inner2  `hcl:"c,block"`
	Rest hcl.Body `hcl:",remain"`
}

type restAttrs struct {
	A    *string        `hcl:"a"`
	C    *inner2        `hcl:"c,block"`
	Rest hcl.Attributes `hcl:",remain"`
}

type restMap struct {
	A    *string           `hcl:"a"`
	Rest map[string]string `hcl:",remain"`
}

type restStruct struct {
	A    *string `hcl:"a"`
	Rest inner2b `hcl:",remain"`
}

type inner2b struct {
	B string `hcl:"b,optional"`
}

// Rest: what remains of a body.
func Rest() {
	body, src, items, vals := gen("abcd", sym.Param("n", 2), sym.Param("labels", 0), 0)
	s := &hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "a"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c"}},
	}
	k := sym.Choice(4)
	if k >= 2 {
		s.Blocks = nil
	}
	w := wanted(items, vals, s, true)
	as, bs := lib.LeftAttrs(items, w.RContent), lib.LeftBlocks(items, w.RContent)
	switch k {
	case 0:
		got := restBody{C: &inner2{}}
		diags := gohcl.DecodeBody(body, ctx, &got)
		w.strPtr("a", got.A)
		w.single("c", got.C)
		w.done(src, diags)
		sym.Assert(got.Rest != nil, "the rest is set")
		if got.Rest != nil {
			ga, d := got.Rest.JustAttributes()
			lib.CheckAttrs(as, ga, "the rest")
			sym.Assert(d.HasErrors() == (len(bs) > 0), "the blocks of the rest")
		}
	case 1:
		var got restAttrs
		diags := gohcl.DecodeBody(body, ctx, &got)
		w.strPtr("a", got.A)
		w.single("c", got.C)
		w.fail = w.fail || len(bs) > 0
		w.done(src, diags)
		lib.CheckAttrs(as, got.Rest, "the rest")
	case 2:
		var got restMap
		diags := gohcl.DecodeBody(body, ctx, &got)
		w.strPtr("a", got.A)
		w.fail = w.fail || len(bs) > 0
		for _, it := range as {
			w.fail = w.fail || vals[it].s == nil
		}
		w.done(src, diags)
		if !w.fail {
			sym.Assert(len(got.Rest) == len(as), "the rest of the attributes")
			for _, it := range as {
				g, ok := got.Rest[it.Name]
				sym.Assert(ok && g == *vals[it].s, "the values of the rest")
			}
		}
	case 3:
		var got restStruct
		diags := gohcl.DecodeBody(body, ctx, &got)
		w.strPtr("a", got.A)
		n := lib.RefExtract(items, w.RContent, &hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "b"}}}, false)
		w2 := &want{n, vals, w.fail || len(n.Errs) > 0}
		w2.str("b", got.Rest.B)
		w2.done(src, diags)
	}
}

type raw struct {
	A hcl.Expression `hcl:"a"`
	B *hcl.Attribute `hcl:"b"`
	C *hcl.Block     `hcl:"c,block"`
	D hcl.Body       `hcl:"d,block"`
}

type rawSlices struct {
	B []hcl.Attributes `hcl:"b,block"`
	C []*hcl.Block     `hcl:"c,block"`
	D []hcl.Body       `hcl:"d,block"`
}

// Raw: fields of undecoded types.
func Raw() {
	body, src, items, vals := gen("abcd", sym.Param("n", 2), 0, 1)
	if sym.Choice(2) == 0 {
		var got raw
		diags := gohcl.DecodeBody(body, ctx, &got)
		w := wanted(items, vals, &hcl.BodySchema{
			Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b"}},
			Blocks:     []hcl.BlockHeaderSchema{{Type: "c"}, {Type: "d"}},
		}, false)
		sym.Assert(got.A != nil, "an expression is set")
		for _, it := range w.Attrs {
			switch {
			case it.Name == "a":
				if got.A != nil {
					r := got.A.Range()
					sym.Assert(r.Start.Byte == it.ExprPos && r.End.Byte == it.ExprEnd, "the expression is the one of the attribute")
				}
			case it.Name == "b":
				sym.Assert(got.B != nil && got.B.NameRange.Start.Byte == it.Pos, "the attribute is set")
			}
		}
		if w.attr("a") == nil && got.A != nil {
			v, d := got.A.Value(nil)
			sym.Assert(!d.HasErrors() && v.IsNull(), "an absent expression is null")
		}
		sym.Assert(w.attr("b") != nil || got.B == nil, "an absent attribute is nil")
		cs, ds := w.blocks("c"), w.blocks("d")
		w.fail = w.fail || len(cs) > 1 || len(ds) != 1
		if len(cs) == 1 {
			if got.C == nil {
				sym.Fail("a block is set")
			} else {
				lib.CheckBlock(cs[0], got.C, "a block")
			}
		}
		if len(ds) == 1 {
			sameBody(ds[0], got.D)
		}
		w.done(src, diags)
		return
	}
	var got rawSlices
	diags := gohcl.DecodeBody(body, ctx, &got)
	w := wanted(items, vals, &hcl.BodySchema{
		Blocks: []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "c"}, {Type: "d"}},
	}, false)
	bs, cs, ds := w.blocks("b"), w.blocks("c"), w.blocks("d")
	sym.Assert(len(got.B) == len(bs) && len(got.C) == len(cs) && len(got.D) == len(ds), "all the blocks")
	for i, it := range bs {
		w.fail = w.fail || len(lib.LeftBlocks(it.Body, nil)) > 0
		if i < len(got.B) {
			lib.CheckAttrs(lib.LeftAttrs(it.Body, nil), got.B[i], "attributes of a block")
		}
	}
	for i, it := range cs {
		if i < len(got.C) {
			lib.CheckBlock(it, got.C[i], "a block")
		}
	}
	for i, it := range ds {
		if i < len(got.D) {
			sameBody(it, got.D[i])
		}
	}
	w.done(src, diags)
}

func sameBody(it *lib.RItem, b hcl.Body) {
	if b == nil {
		sym.Fail("a body is set")
		return
	}
	as, d := b.JustAttributes()
	lib.CheckAttrs(lib.LeftAttrs(it.Body, nil), as, "attributes of a body")
	sym.Assert(d.HasErrors() == (len(lib.LeftBlocks(it.Body, nil)) > 0), "blocks of a body")
	sym.Cover("body")
}

// Maps: bodies decoded into maps.
func Maps() {
	body, src, items, vals := gen("abc", sym.Param("n", 2), 0, 0)
	as := lib.LeftAttrs(items, nil)
	w := &want{&lib.RContent{}, vals, len(as) < len(items)}
	if sym.Choice(2) == 0 {
		var got map[string]*string
		diags := gohcl.DecodeBody(body, ctx, &got)
		for _, it := range as {
			w.fail = w.fail || vals[it].s == nil && !vals[it].null
		}
		w.done(src, diags)
		if !w.fail {
			sym.Assert(len(got) == len(as), "all the attributes")
			for _, it := range as {
				g, ok := got[it.Name]
				v := vals[it]
				sym.Assert(ok && (v.null && g == nil || !v.null && g != nil && *g == *v.s), "the values of a map")
			}
		}
		return
	}
	var got map[string]hcl.Expression
	diags := gohcl.DecodeBody(body, ctx, &got)
	w.done(src, diags)
	sym.Assert(len(got) == len(as), "all the expressions")
	for _, it := range as {
		if e := got[it.Name]; e == nil {
			sym.Fail("an expression is set")
		} else {
			sym.Assert(e.Range().Start.Byte == it.ExprPos, "the expressions of a map")
		}
	}
}

type typed struct {
	I8  int8           `hcl:"a,optional"`
	U   *uint16        `hcl:"b"`
	F   float64        `hcl:"c,optional"`
	V   cty.Value      `hcl:"v,optional"`
	M   map[string]int `hcl:"m,optional"`
	LL  [][]bool       `hcl:"l,optional"`
	Ptr *[]string      `hcl:"p"`
	One labelled       `hcl:"one,block"`
}

type labelled struct {
	X  int     `hcl:"x,optional"`
	L1 string  `hcl:"first,label"`
	Y  *string `hcl:"y"`
	L2 string  `hcl:"second,label"`
	L3 string  `hcl:"third,label"`
}

// Typed: fields of further types.
func Typed() {
	one := "one \"a\" \"b\" \"c\" {\n}\n"
	src := ""
	set := func(name, val string) { src = name + " = " + val + "\n" }
	l := string([]byte{sym.ByteIn("ab")})
	d1, d2, d3 := sym.ByteIn("0127"), sym.ByteIn("0289"), sym.ByteIn("5789")
	n := int(d1-'0')*100 + int(d2-'0')*10 + int(d3-'0')
	digits := string([]byte{d1, d2, d3})
	k := sym.Choice(10)
	neg := false
	switch k {
	case 0, 1:
		if neg = sym.Bool(); neg {
			n = -n
			digits = "-" + digits
		}
		set([]string{"a", "b"}[k], digits)
	case 2:
		set("b", "6"+string([]byte{'5', sym.ByteIn("45"), sym.ByteIn("56"), sym.ByteIn("356")}))
	case 3:
		set("c", string([]byte{d1})+"."+string([]byte{sym.ByteIn("05")}))
	case 4:
		set("v", []string{"1", "null", "[true, v]", "u", "{a = null}"}[sym.Choice(5)])
	case 5:
		set("m", []string{"{}", "{" + l + " = " + string([]byte{d1}) + ", c = 1}", "{a = true}", "{a = 1.5}", "{a = null}"}[sym.Choice(5)])
	case 6:
		set("l", []string{"[]", "[[]]", "[[true], [false, true]]", "[[1]]", "[true]"}[sym.Choice(5)])
	case 7:
		set("p", []string{"[]", "[\"" + l + "\"]", "null", "1"}[sym.Choice(4)])
	case 8:
		one = "one \"" + l + "\" \"b\" \"" + string([]byte{d1}) + "\" {\n  y = \"" + string([]byte{d2}) + "\"\n}\n"
	case 9:
		one = "one \"a\" \"b\" {\n}\n"
	}
	src += one
	sym.ObserveStr("src", src)
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	var got typed
	diags = gohcl.DecodeBody(f.Body, ctx, &got)
	lib.DiagsOK([]byte(src), diags, "decoding")
	bad := diags.HasErrors()
	sym.ObserveBool("errors", bad)
	text := ""
	if i := 4; len(src) > i && src[0] != 'o' {
		for src[i] != '\n' {
			i++
		}
		text = src[4:i]
	}
	switch k {
	case 0:
		fits := n >= -128 && n <= 127
		sym.Assert(bad == !fits, "a number that does not fit is reported")
		sym.Assert(bad || int(got.I8) == n, "a small number is set")
	case 1:
		fits := n >= 0
		sym.Assert(bad == !fits, "a negative number is reported")
		sym.Assert(bad || got.U != nil && int(*got.U) == n, "an unsigned number is set")
	case 2:
		m := 0
		for _, c := range []byte(text) {
			m = m*10 + int(c-'0')
		}
		sym.Assert(bad == (m > 65535), "a large number is reported")
		sym.Assert(bad || got.U != nil && int(*got.U) == m, "a large number is set")
	case 3:
		w := float64(int(d1 - '0'))
		if text[2] == '5' {
			w += 0.5
		}
		sym.Assert(!bad && got.F == w, "a fraction is set")
	case 4:
		switch text {
		case "u":
			sym.Assert(bad, "an unknown variable is reported")
		case "1":
			sym.Assert(!bad && got.V.RawEquals(cty.NumberIntVal(1)), "a value is set")
		case "null":
			sym.Assert(!bad && got.V.IsNull(), "a null value is set")
		case "[true, v]":
			sym.Assert(!bad && got.V.RawEquals(cty.TupleVal([]cty.Value{cty.True, cty.StringVal("w")})), "a tuple is set")
		default:
			sym.Assert(!bad && got.V.RawEquals(cty.ObjectVal(map[string]cty.Value{"a": cty.NullVal(cty.DynamicPseudoType)})), "an object is set")
		}
	case 5:
		switch text {
		case "{}":
			sym.Assert(!bad && len(got.M) == 0, "an empty map is set")
		case "{a = true}", "{a = 1.5}", "{a = null}":
			sym.Assert(bad, "a wrong element is reported")
		default:
			sym.Assert(!bad && len(got.M) == 2 && got.M[l] == int(d1-'0') && got.M["c"] == 1, "a map is set")
		}
	case 6:
		switch text {
		case "[]":
			sym.Assert(!bad && len(got.LL) == 0, "an empty list is set")
		case "[[]]":
			sym.Assert(!bad && len(got.LL) == 1 && len(got.LL[0]) == 0, "a list of an empty list is set")
		case "[[true], [false, true]]":
			sym.Assert(!bad && len(got.LL) == 2 && len(got.LL[0]) == 1 && len(got.LL[1]) == 2 && got.LL[0][0] && !got.LL[1][0] && got.LL[1][1], "a list of lists is set")
		default:
			sym.Assert(bad, "a wrong element is reported")
		}
	case 7:
		switch text {
		case "[]":
			sym.Assert(!bad && got.Ptr != nil && len(*got.Ptr) == 0, "an empty list is set through a pointer")
		case "null":
			sym.Assert(!bad && (got.Ptr == nil || *got.Ptr == nil), "null gives nothing")
		case "1":
			sym.Assert(bad, "a number is not a list")
		default:
			sym.Assert(!bad && got.Ptr != nil && len(*got.Ptr) == 1 && (*got.Ptr)[0] == l, "a list is set through a pointer")
		}
	case 8:
		sym.Assert(!bad && got.One.L1 == l && got.One.L2 == "b" && got.One.L3 == string([]byte{d1}), "labels are set in order")
		sym.Assert(got.One.Y != nil && *got.One.Y == string([]byte{d2}) && got.One.X == 0, "fields beside labels are set")
	case 9:
		sym.Assert(bad, "a missing label is reported")
	}
	sym.Cover("typed")
}
