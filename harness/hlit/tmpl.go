package hlit

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
)

// item of a template: a literal, an interpolation or a directive, with the
// strip markers on its two sides
type item struct {
	kind string // "lit", "interp", "if", "else", "endif", "for", "endfor"
	text []byte // decoded literal text
	src  []byte
	l, r bool
}

func marker(on bool) string {
	if on {
		return "~"
	}
	return ""
}

func directive(kind, intro, text string) item {
	it := item{kind: kind, l: sym.Bool(), r: sym.Bool()}
	it.src = []byte(intro + "{" + marker(it.l) + " " + text + " " + marker(it.r) + "}")
	return it
}

type refTemplate struct {
	items []item
	pos   int
	cond  bool
	elems []string
	ok    bool
}

// seq evaluates items up to a closing directive.
func (t *refTemplate) seq(vars []string) (out []byte, end string) {
	for t.pos < len(t.items) {
		it := t.items[t.pos]
		t.pos++
		switch it.kind {
		case "lit":
			out = append(out, it.text...)
		case "interp":
			out = append(out, vars[len(vars)-1]...)
		case "if":
			a, e := t.seq(vars)
			var b []byte
			if e == "else" {
				b, e = t.seq(vars)
			}
			if e != "endif" {
				t.ok = false
				return nil, ""
			}
			if t.cond {
				out = append(out, a...)
			} else {
				out = append(out, b...)
			}
		case "for":
			start := t.pos
			for _, v := range t.elems {
				t.pos = start
				a, e := t.seq(append(append([]string(nil), vars...), v))
				if e != "endfor" {
					t.ok = false
					return nil, ""
				}
				out = append(out, a...)
			}
		default:
			return out, it.kind
		}
	}
	return out, ""
}

// A strip marker affects the line of literal text it is adjacent to.

func trimLeft(b []byte) []byte {
	for len(b) > 0 && (b[0] == ' ' || b[0] == '\n') {
		nl := b[0] == '\n'
		b = b[1:]
		if nl {
			break
		}
	}
	return b
}

func trimRight(b []byte) []byte {
	first := true
	for len(b) > 0 && (b[len(b)-1] == ' ' || first && b[len(b)-1] == '\n') {
		b = b[:len(b)-1]
		first = false
	}
	return b
}

// Template: every sequence of k items.
func Template() {
	k := sym.Param("k", 3)
	var items []item
	prevLit := false
	for i := 0; i < k; i++ {
		c := sym.Choice(7)
		sym.Assume(!(prevLit && c == 0))
		prevLit = c == 0
		switch c {
		case 0:
			// up to three characters of literal text
			txt := sym.BytesIn(" \nb", 1+sym.Choice(sym.Param("lit", 2)))
			items = append(items, item{kind: "lit", text: txt, src: txt})
		case 1:
			items = append(items, directive("interp", "$", "v"))
		case 2:
			items = append(items, directive("if", "%", "if c"))
		case 3:
			items = append(items, directive("else", "%", "else"))
		case 4:
			items = append(items, directive("endif", "%", "endif"))
		case 5:
			items = append(items, directive("for", "%", "for v in l"))
		case 6:
			items = append(items, directive("endfor", "%", "endfor"))
		}
	}
	checkTemplate(items)
}

func checkTemplate(items []item) {
	var src []byte
	for _, it := range items {
		src = append(src, it.src...)
	}
	sym.ObserveBytes("src", src)
	for i := range items {
		if items[i].kind != "lit" {
			continue
		}
		if i > 0 && items[i-1].r {
			items[i].text = trimLeft(items[i].text)
		}
		if i+1 < len(items) && items[i+1].l {
			items[i].text = trimRight(items[i].text)
		}
	}
	t := &refTemplate{items: items, cond: sym.Bool(), elems: []string{"p", "q "}, ok: true}
	want, end := t.seq([]string{" o "})
	ok := t.ok && end == ""
	e, diags := hclsyntax.ParseTemplate(src, "t.hcl", lib.Start)
	if !ok {
		sym.Cover("invalid")
		sym.Assert(diags.HasErrors(), "unbalanced directives are errors")
		return
	}
	sym.Assert(!diags.HasErrors(), "balanced directives are accepted")
	ctx := lib.Ctx()
	ctx.Variables["v"] = cty.StringVal(" o ")
	ctx.Variables["c"] = cty.BoolVal(t.cond)
	ctx.Variables["l"] = cty.TupleVal([]cty.Value{cty.StringVal("p"), cty.StringVal("q ")})
	v, diags := e.Value(ctx)
	sym.Assert(!diags.HasErrors(), "templates evaluate")
	sym.Assert(v.Type() == cty.String && v.IsKnown(), "templates give strings")
	sym.Cover("value")
	sym.ObserveStr("v", v.AsString())
	sym.Assert(v.AsString() == string(want), "the template's text is the one its parts prescribe")
}

// TemplateNested: directives nested in one another around symbolic literals.
func TemplateNested() {
	lit := func() item {
		t := sym.BytesIn(" \nb", 1)
		return item{kind: "lit", text: t, src: t}
	}
	d := func(kind, text string) item { return directive(kind, "%", text) }
	var items []item
	switch sym.Choice(3) {
	case 0:
		items = []item{lit(), d("if", "if c"), lit(), d("else", "else"), lit(), d("endif", "endif")}
	case 1:
		items = []item{d("for", "for v in l"), lit(), directive("interp", "$", "v"), lit(), d("endfor", "endfor"), lit()}
	case 2:
		items = []item{d("for", "for v in l"), d("if", "if c"), lit(), directive("interp", "$", "v"), d("endif", "endif"), d("endfor", "endfor")}
	}
	checkTemplate(items)
}

// TemplateVals: parts of every kind of value.
func TemplateVals() {
	forms := []string{
		"${x}", "a${x}", "${x}${y}", "%{ for v in [x, y] }${v}%{ endfor }", "%{ for v in [x, y] }<${v}>%{ endfor }",
		"%{ if x }a%{ else }b%{ endif }", "%{ for v in x }e%{ endfor }", "a%{ if true }${x}%{ endif }", "%{ for v in x }${v}%{ endfor }.",
	}
	form := sym.Choice(len(forms))
	quoted := sym.Bool()
	src := forms[form]
	sym.ObserveStr("src", src)
	ctx := lib.Ctx()
	x := lib.AnyVal()
	ctx.Variables["x"] = x
	parts := []cty.Value{x}
	if form >= 2 && form <= 4 {
		y := lib.FewVals()
		ctx.Variables["y"] = y
		parts = append(parts, y)
	}
	sym.ObserveStr("x", lib.Show(x))
	var e hclsyntax.Expression
	var diags hcl.Diagnostics
	if quoted {
		e, diags = hclsyntax.ParseExpression([]byte("\""+src+"\""), "t.hcl", lib.Start)
	} else {
		e, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", lib.Start)
	}
	sym.Assert(!diags.HasErrors(), "the template is valid")
	got, diags := e.Value(ctx)
	bad := diags.HasErrors()
	as := func(v cty.Value, ty cty.Type) (cty.Value, bool) {
		c, err := convert.Convert(v, ty)
		if err != nil || c.IsNull() {
			return cty.NilVal, false
		}
		return c, true
	}
	switch form {
	case 0:
		sym.Assert(!bad && got.RawEquals(x), "a template of one interpolation gives its value")
		sym.Cover("wrapped")
		return
	case 5:
		c, ok := as(x, cty.Bool)
		if !ok && !x.IsKnown() {
			return // may be reported now or later
		}
		sym.Assert(bad == !ok, "exactly an unusable condition is reported")
		if bad {
			return
		}
		if !c.IsKnown() {
			sym.Assert(!got.IsKnown(), "an unknown condition gives an unknown text")
			return
		}
		want := "b"
		if c.True() {
			want = "a"
		}
		sym.Assert(got.RawEquals(cty.StringVal(want)), "the condition selects the text")
		sym.Cover("condition")
		return
	case 6, 8:
		if x.Type() == cty.DynamicPseudoType && !x.IsKnown() {
			sym.Assert(!bad && !got.IsKnown(), "an unknown collection gives an unknown text")
			return
		}
		if x.IsNull() || !x.CanIterateElements() {
			if x.IsKnown() {
				sym.Assert(bad, "what cannot be iterated is reported")
			}
			return
		}
		if !x.IsKnown() {
			sym.Assert(!bad && !got.IsKnown(), "an unknown collection gives an unknown text")
			return
		}
		parts = nil
		for it := x.ElementIterator(); it.Next(); {
			_, v := it.Element()
			if form == 6 {
				v = cty.StringVal("e")
			}
			parts = append(parts, v)
		}
	}
	fail, known := false, true
	want := ""
	if form == 1 || form == 7 {
		want = "a"
	}
	for _, p := range parts {
		c, ok := as(p, cty.String)
		if !ok && !p.IsKnown() {
			return // may be reported now or later
		}
		if !ok {
			fail = true
			continue
		}
		if !c.IsKnown() {
			known = false
			continue
		}
		if form == 4 {
			want += "<" + c.AsString() + ">"
		} else {
			want += c.AsString()
		}
	}
	if form == 8 {
		want += "."
	}
	if fail {
		if known || form < 3 {
			sym.Assert(bad, "a part without a text is reported")
		}
		sym.Cover("reported")
		return
	}
	sym.Assert(!bad, "parts with a text are accepted")
	if !known {
		sym.Assert(!got.IsKnown(), "an unknown part makes the text unknown")
		sym.Cover("unknown")
		return
	}
	sym.Assert(got.RawEquals(cty.StringVal(want)), "the text of all the parts in order")
	sym.Cover("text")
}
