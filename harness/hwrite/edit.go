package hwrite

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// item is an attribute, a block or plain text of a document.
type item struct {
	kind             int // 0 text, 1 attribute, 2 block
	lead, name, expr string
	tail             string
	labels           string
	oneLine          bool
	body             []*item
}

func render(items []*item) string {
	out := ""
	for _, it := range items {
		out += it.lead
		switch it.kind {
		case 1:
			out += it.name + " = " + it.expr
		case 2:
			out += it.name + it.labels + " {"
			if !it.oneLine {
				out += "\n"
			}
			out += render(it.body) + "}"
		}
		out += it.tail
	}
	return out
}

var exprs = []string{"1", "(v)", "l[v.w]", "f(v, \"v\")", "<<A\n${v}\nA"}

func (d *doc) attr(name string) *item {
	d.left--
	it := &item{kind: 1, name: name, tail: "\n", expr: exprs[sym.Choice(sym.Param("x", len(exprs)))]}
	if it.expr[0] == '<' {
		return it
	}
	switch sym.Choice(4) {
	case 1:
		it.lead = "# c\n"
	case 2:
		it.tail = " # d\n"
	case 3:
		it.tail = " /* e */\n"
	}
	return it
}

type doc struct{ left int }

// items chooses the items of a body.
func (d *doc) items(depth int) []*item {
	var items []*item
	names := []string{"ab", "a", "c"}
	for d.left > 0 {
		switch sym.Choice(4) {
		case 0:
			return items
		case 1:
			items = append(items, d.attr(names[0]))
			names = names[1:]
		case 2:
			d.left--
			items = append(items, &item{lead: []string{"\n", "# x\n", "/* y */\n"}[sym.Choice(3)]})
		case 3:
			if depth == 0 {
				return items
			}
			d.left--
			it := &item{kind: 2, name: "b", tail: "\n"}
			it.labels = []string{"", " \"m\""}[sym.Choice(2)]
			switch sym.Choice(3) {
			case 0:
				it.oneLine = true
			case 1:
				it.oneLine = true
				it.body = []*item{{kind: 1, lead: " ", name: "a", expr: "v", tail: " "}}
			case 2:
				it.body = d.items(depth - 1)
			}
			items = append(items, it)
		}
	}
	return items
}

func attrOf(items []*item, name string) *item {
	for _, it := range items {
		if it.kind == 1 && it.name == name {
			return it
		}
	}
	return nil
}

// target is a body of the document in both forms.
type target struct {
	owner *item // nil for the file
	items *[]*item
	body  *hclwrite.Body
}

// app adds an item at the end.
func (t target) app(it *item) {
	if t.owner != nil && t.owner.oneLine {
		t.owner.oneLine = false
		for _, i := range t.owner.body {
			i.tail = "\n"
		}
	}
	if n := len(*t.items); n > 0 && (*t.items)[n-1].tail == "" && (*t.items)[n-1].kind > 0 {
		(*t.items)[n-1].tail = "\n"
	}
	*t.items = append(*t.items, it)
}

func find(items *[]*item, b *hclwrite.Body, owner *item) []target {
	ts := []target{{owner, items, b}}
	n := 0
	for _, it := range *items {
		if it.kind == 2 {
			bs := b.Blocks()
			if n < len(bs) {
				ts = append(ts, find(&it.body, bs[n].Body(), it)...)
			}
			n++
		}
	}
	return ts
}

// edit applies one edit to both forms.
func edit(t target) {
	switch sym.Choice(6) {
	case 0, 1:
		name := []string{"ab", "a", "n"}[sym.Choice(3)]
		var text string
		var got *hclwrite.Attribute
		if sym.Choice(2) == 0 {
			c := sym.ByteIn("xy")
			text = "\"" + string([]byte{c}) + "\""
			got = t.body.SetAttributeValue(name, cty.StringVal(string([]byte{c})))
		} else {
			text = "q.r[0]"
			got = t.body.SetAttributeTraversal(name, hcl.Traversal{hcl.TraverseRoot{Name: "q"}, hcl.TraverseAttr{Name: "r"}, hcl.TraverseIndex{Key: cty.NumberIntVal(0)}})
		}
		sym.Assert(got != nil && got == t.body.GetAttribute(name), "set: the attribute is returned and found")
		if got != nil {
			sameTokens(got.Expr().BuildTokens(nil).Bytes(), []byte(text), "set: the attribute has the expression")
		}
		if it := attrOf(*t.items, name); it != nil {
			it.expr = text
			sym.Cover("replaced")
		} else {
			t.app(&item{kind: 1, name: name, expr: text, tail: "\n"})
		}
	case 2:
		var bl *hclwrite.Block
		if sym.Choice(2) == 0 {
			bl = t.body.AppendNewBlock("k", []string{"w"})
		} else {
			bl = hclwrite.NewBlock("k", []string{"w"})
			sym.Assert(t.body.AppendBlock(bl) == bl, "append: the block is returned")
		}
		it := &item{kind: 2, name: "k", labels: " \"w\"", tail: "\n"}
		if sym.Choice(2) == 1 {
			bl.Body().SetAttributeValue("a", cty.True)
			it.body = []*item{{kind: 1, name: "a", expr: "true", tail: "\n"}}
		}
		t.app(it)
		bs := t.body.Blocks()
		sym.Assert(len(bs) > 0 && bs[len(bs)-1] == bl, "append: the block is the last")
	case 3:
		t.body.Clear()
		if t.owner != nil {
			t.owner.oneLine = true
		}
		*t.items = nil
		sym.Assert(len(t.body.Attributes()) == 0 && len(t.body.Blocks()) == 0, "clear: nothing is left")
		sym.Assert(t.body.GetAttribute("a") == nil, "clear: nothing is found")
		sym.Cover("cleared")
	case 4:
		// only where a line has ended
		sym.Assume(t.owner == nil || !t.owner.oneLine)
		n := len(*t.items)
		sym.Assume(n == 0 || (*t.items)[n-1].tail != "" || (*t.items)[n-1].kind == 0)
		t.body.AppendNewline()
		*t.items = append(*t.items, &item{lead: "\n"})
	case 5:
		name := []string{"ab", "a"}[sym.Choice(2)]
		it := attrOf(*t.items, name)
		sym.Assume(it != nil)
		a := t.body.GetAttribute(name)
		if a == nil {
			sym.Fail("rename: the attribute is found")
			return
		}
		if sym.Choice(2) == 0 {
			a.Expr().RenameVariablePrefix([]string{"v"}, []string{"z"})
			it.expr = renamed(it.expr, "v", "z", "v", "z")
		} else {
			a.Expr().RenameVariablePrefix([]string{"v", "w"}, []string{"y", "z"})
			it.expr = renamed(it.expr, "", "", "v.w", "y.z")
		}
		sym.Cover("renamed")
	}
}

// renamed gives the expression after renaming.
func renamed(expr, v, vTo, vw, vwTo string) string {
	switch expr {
	case "(v)", "f(v, \"v\")", "<<A\n${v}\nA", "v":
		if v == "" {
			return expr
		}
		switch expr[0] {
		case '(':
			return "(" + vTo + ")"
		case 'f':
			return "f(" + vTo + ", \"v\")"
		case '<':
			return "<<A\n${" + vTo + "}\nA"
		}
		return vTo
	case "l[v.w]":
		if v == "" {
			return "l[" + vwTo + "]"
		}
		return "l[" + vTo + ".w]"
	}
	return expr
}

// Edit: edits of a document.
func Edit() {
	d := &doc{left: sym.Param("n", 2)}
	items := d.items(1)
	if n := len(items); n > 0 && items[n-1].kind > 0 && items[n-1].tail == "\n" && items[n-1].expr != exprs[4] {
		if sym.Choice(2) == 1 {
			items[n-1].tail = ""
		}
	}
	src := []byte(render(items))
	sym.ObserveBytes("src", src)
	f, diags := hclwrite.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors() && f != nil, "the document loads")
	if f == nil {
		return
	}
	for i := 0; i < sym.Param("k", 1); i++ {
		ts := find(&items, f.Body(), nil)
		edit(ts[sym.Choice(len(ts))])
	}
	want := []byte(render(items))
	out := f.Bytes()
	sym.ObserveBytes("want", want)
	sym.ObserveBytes("out", out)
	file, diags := hclsyntax.ParseConfig(out, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the edited source is valid")
	if diags.HasErrors() {
		return
	}
	// line breaks are a matter of layout
	sameTokenList(apart(lex(want)), apart(lex(out)), "edited")
	agree(file.Body.(*hclsyntax.Body), f.Body())
	sym.Cover("edited")
}

// apart gives the tokens apart from line breaks.
func apart(toks hclsyntax.Tokens) hclsyntax.Tokens {
	var out hclsyntax.Tokens
	for _, t := range toks {
		if t.Type != hclsyntax.TokenNewline {
			out = append(out, t)
		}
	}
	return out
}

// agree asserts that reading through the API agrees with parsing.
func agree(b *hclsyntax.Body, w *hclwrite.Body) {
	as := w.Attributes()
	sym.Assert(len(as) == len(b.Attributes), "reading: the attributes")
	for _, n := range lib.AttrNames(b.Attributes) {
		sym.Assert(as[n] != nil && w.GetAttribute(n) == as[n], "reading: an attribute")
	}
	bs := w.Blocks()
	sym.Assert(len(bs) == len(b.Blocks), "reading: the blocks")
	for i, x := range b.Blocks {
		if i < len(bs) {
			agree(x.Body, bs[i].Body())
		}
	}
}
