// Package hmisc holds the harnesses about the file registry, mock bodies and
// lists of diagnostics.
package hmisc

import (
	"bytes"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

const missing = "/nonexistent-verif/none"

// Registry: any sequence of calls of a parser.
func Registry() {
	p := hclparse.NewParser()
	type entry struct {
		name string
		src  []byte
		file *hcl.File
	}
	var want []*entry
	find := func(name string) *entry {
		for _, e := range want {
			if e.name == name {
				return e
			}
		}
		return nil
	}
	for i := sym.Param("k", 3); i > 0; i-- {
		name := string([]byte{sym.ByteIn("pq")})
		src := []byte{'a', '=', sym.ByteIn("1\n"), '\n'}
		json := []byte{'{', sym.ByteIn(" x"), '}'}
		if sym.Bool() {
			src = nil
		}
		old := find(name)
		var f *hcl.File
		var d hcl.Diagnostics
		bad := false
		switch sym.Choice(5) {
		case 0:
			f, d = p.ParseHCL(src, name)
			bad = src != nil && src[2] == '\n'
		case 1:
			f, d = p.ParseJSON(json, name)
			bad = json[1] == 'x'
			src = json
		case 2:
			g, _ := hclsyntax.ParseConfig(src, name, lib.Start)
			p.AddFile(name, g)
			if old != nil {
				old.src, old.file = src, g
			} else {
				want = append(want, &entry{name, src, g})
			}
			continue
		case 3:
			name = missing + name
			f, d = p.ParseHCLFile(name)
			sym.Assert(f == nil && d.HasErrors(), "a file that cannot be read is reported every time")
			continue
		case 4:
			name = missing + name + ".json"
			f, d = p.ParseJSONFile(name)
			sym.Assert(f == nil && d.HasErrors(), "a file that cannot be read is reported every time")
			continue
		}
		if old != nil {
			sym.Assert(f == old.file, "the same file is returned again")
			sym.Assert(len(d) == 0, "problems are reported once")
			sym.Cover("again")
			continue
		}
		sym.Assert(f != nil, "a file is returned")
		sym.Assert(d.HasErrors() == bad, "problems are reported")
		want = append(want, &entry{name, src, f})
	}
	srcs, files := p.Sources(), p.Files()
	sym.Assert(len(srcs) == len(want) && len(files) == len(want), "exactly the files that were read")
	for _, e := range want {
		sym.Assert(files[e.name] == e.file, "each file under its name")
		sym.Assert(string(srcs[e.name]) == string(e.src), "the source of each file")
	}
	sym.ObserveInt("files", len(files))
}

// Resolver: includes of files known to a parser and of missing ones.
func Resolver() {
	p := hclparse.NewParser()
	body := func(name string) *hcl.File {
		f, d := hclsyntax.ParseConfig([]byte{'x', '=', sym.ByteIn("123"), '\n'}, name, lib.Start)
		sym.Assert(!d.HasErrors(), "the included body is valid")
		p.AddFile(name, f)
		return f
	}
	base := []string{"", "/base", "/base/"}[sym.Choice(3)]
	caller := []string{"t.hcl", "dir/t.hcl", "../t.hcl"}[sym.Choice(3)]
	path := []string{"p.hcl", "sub/p.hcl", "../p.hcl", "./p.json", "p"}[sym.Choice(5)]
	dir := base
	for strings.HasSuffix(dir, "/") {
		dir = dir[:len(dir)-1]
	}
	full := norm(dir, caller[:strings.LastIndex(caller, "/")+1], path)
	var want *hcl.File
	if sym.Bool() {
		want = body(full)
	} else {
		body("other")
		if base == "" {
			full = missing
		}
	}
	sym.ObserveStr("full", full)
	if want == nil && base == "" {
		// a relative name of a missing file might exist
		return
	}
	r := include.FileResolver(base, p)
	got, d := r.ResolveBodyPath(path, hcl.Range{Filename: caller})
	if want == nil {
		sym.Assert(d.HasErrors(), "a missing file is reported")
		sym.Assert(got != nil, "a body is returned also for a missing file")
		sym.Cover("missing")
		return
	}
	sym.Assert(!d.HasErrors() && got == want.Body, "the file relative to the including one")
	sym.Cover("found")
}

// norm joins relative names.
func norm(base string, parts ...string) string {
	var segs []string
	for _, p := range append([]string{base}, parts...) {
		for _, s := range strings.Split(p, "/") {
			switch s {
			case "", ".":
			case "..":
				if len(segs) > 0 && segs[len(segs)-1] != ".." {
					segs = segs[:len(segs)-1]
				} else if base == "" {
					segs = append(segs, s)
				}
			default:
				segs = append(segs, s)
			}
		}
	}
	out := strings.Join(segs, "/")
	if base != "" {
		out = "/" + out
	}
	return out
}

var schemas = []*hcl.BodySchema{
	{
		Attributes: []hcl.AttributeSchema{{Name: "a"}, {Name: "b", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "c", LabelNames: []string{"x"}}},
	},
	{
		Attributes: []hcl.AttributeSchema{{Name: "c"}, {Name: "a", Required: true}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "a", LabelNames: []string{"x", "y"}}},
	},
	{},
}

// Mock: a mock body of any content behaves like a body.
func Mock() {
	g := &lib.GenBody{Names: "abc", Left: sym.Param("n", 3), MaxLabels: 2}
	items := g.Body(0)
	sym.ObserveBytes("src", g.Src)
	f, diags := hclsyntax.ParseConfig(g.Src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "the body is valid")
	nb := f.Body.(*hclsyntax.Body)
	content := &hcl.BodyContent{Attributes: hcl.Attributes{}, MissingItemRange: nb.MissingItemRange()}
	for n, a := range nb.Attributes {
		content.Attributes[n] = a.AsHCLAttribute()
	}
	for _, b := range nb.Blocks {
		content.Blocks = append(content.Blocks, b.AsHCLBlock())
	}
	body := hcltest.MockBody(content)
	s1, s2 := schemas[sym.Choice(len(schemas))], schemas[sym.Choice(len(schemas))]
	sym.Freeze(s1)
	sym.Freeze(s2)
	c1, rem, d1 := body.PartialContent(s1)
	r1 := lib.RefExtract(items, nil, s1, true)
	same(r1, c1, d1, "partial content")
	c2, d2 := rem.Content(s2)
	r2 := lib.RefExtract(items, r1, s2, false)
	same(r2, c2, d2, "remaining content")
	as, d := rem.JustAttributes()
	lib.CheckAttrs(lib.LeftAttrs(items, r1), as, "remaining attributes")
	sym.Assert(d.HasErrors() == (len(lib.LeftBlocks(items, r1)) > 0), "remaining blocks")
	sym.Assert(body.MissingItemRange() == nb.MissingItemRange() && rem.MissingItemRange() == nb.MissingItemRange(), "missing item range")
}

func same(r *lib.RContent, c *hcl.BodyContent, d hcl.Diagnostics, what string) {
	sym.Assert(d.HasErrors() == (len(r.Errs)+r.Missing > 0), what+": exactly wrong content is reported")
	lib.CheckAttrs(r.Attrs, c.Attributes, what)
	if !d.HasErrors() {
		sym.Assert(len(c.Blocks) == len(r.Blocks), what+": all the blocks")
		for i, b := range c.Blocks {
			if i < len(r.Blocks) {
				lib.CheckBlock(r.Blocks[i], b, what)
			}
		}
		by := c.Blocks.ByType()
		n := 0
		for t, bs := range by {
			of := c.Blocks.OfType(t)
			n += len(bs)
			k := 0
			for _, b := range c.Blocks {
				if b.Type == t {
					sym.Assert(k < len(of) && of[k] == b && k < len(bs) && bs[k] == b, what+": the blocks of a type in order")
					k++
				}
			}
			sym.Assert(k == len(of) && k == len(bs), what+": only blocks of the type")
		}
		sym.Assert(n == len(c.Blocks), what+": the blocks of all types")
		sym.Cover("content")
	}
}

// Exprs: mock expressions.
func Exprs() {
	v := lib.KnownVals()
	c := lib.StrC("abc")
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"v": v, "w": c}}
	if sym.Bool() {
		ctx = ctx.NewChild()
		if sym.Bool() {
			ctx.Variables = map[string]cty.Value{"w": v}
			c = v
		}
	}
	name := string([]byte{sym.ByteIn("vwx")})
	want := map[string]cty.Value{"v": v, "w": c}
	var e hcl.Expression
	if sym.Bool() {
		e = hcltest.MockExprVariable(name)
	} else {
		e = hcltest.MockExprTraversalSrc(name)
	}
	got, d := e.Value(ctx)
	if name == "x" {
		sym.Assert(d.HasErrors(), "an undefined variable is reported")
	} else {
		sym.Assert(!d.HasErrors() && got.RawEquals(want[name]), "the value of a variable")
	}
	vars := e.Variables()
	sym.Assert(len(vars) == 1 && vars[0].RootName() == name, "the variable is reported")
	tr, d := hcl.AbsTraversalForExpr(e)
	sym.Assert(!d.HasErrors() && tr.RootName() == name && len(tr) == 1, "a variable is a traversal")

	lit := hcltest.MockExprLiteral(v)
	got, d = lit.Value(nil)
	sym.Assert(!d.HasErrors() && got.RawEquals(v) && len(lit.Variables()) == 0, "a literal is its value")
	elems, d := hcl.ExprList(lit)
	if ty := v.Type(); !v.IsNull() && (ty.IsListType() || ty.IsTupleType()) {
		sym.Assert(!d.HasErrors() && len(elems) == v.LengthInt(), "the parts of a literal")
		for i, p := range elems {
			ev, _ := p.Value(nil)
			sym.Assert(ev.RawEquals(v.Index(cty.NumberIntVal(int64(i)))), "each part of a literal")
		}
		sym.Cover("parts")
	} else {
		sym.Assert(d.HasErrors(), "only lists have parts")
	}
	list := hcltest.MockExprList([]hcl.Expression{e, hcltest.MockExprVariable("w")})
	parts, d := hcl.ExprList(list)
	sym.Assert(!d.HasErrors() && len(parts) == 2, "a list has its parts")
	sym.Assert(len(list.Variables()) == 2, "the variables of a list")
	attrs := hcltest.MockAttrs(map[string]hcl.Expression{name: e, "lit": lit})
	sym.Assert(len(attrs) == 2 && attrs[name].Name == name && attrs["lit"].Name == "lit", "attributes by name")
}

// Diags: lists of diagnostics.
func Diags() {
	var ds, more hcl.Diagnostics
	errs := 0
	n := sym.Choice(sym.Param("n", 4) + 1)
	at := sym.Choice(n + 1)
	for i := 0; i < n; i++ {
		d := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: string([]byte{'s', byte('0' + i)}), Detail: "d"}
		if sym.Bool() {
			d.Severity = hcl.DiagError
			errs++
		}
		if sym.Bool() {
			d.Subject = &hcl.Range{Filename: "f", Start: lib.Start, End: lib.Start}
		}
		if i < at {
			ds = ds.Append(d)
		} else {
			more = more.Append(d)
		}
	}
	all := ds.Extend(more)
	sym.Assert(len(all) == n, "all the diagnostics")
	k := 0
	es := all.Errs()
	for i, d := range all {
		sym.Assert(d.Summary == string([]byte{'s', byte('0' + i)}), "diagnostics stay in order")
		if d.Severity == hcl.DiagError {
			sym.Assert(k < len(es) && es[k] == error(d), "exactly the errors in order")
			k++
		}
	}
	var one, each bytes.Buffer
	sym.Assert(hcl.NewDiagnosticTextWriter(&one, nil, 78, false).WriteDiagnostics(all) == nil, "diagnostics can be written")
	for _, d := range all {
		sym.Assert(hcl.NewDiagnosticTextWriter(&each, nil, 78, false).WriteDiagnostic(d) == nil, "a diagnostic can be written")
	}
	sym.Assert(one.String() == each.String(), "all the diagnostics are written in order")
	sym.Assert(all.HasErrors() == (errs > 0), "errors are recognised")
	sym.Assert(len(es) == errs, "exactly the errors")
	t := all.Error()
	sym.ObserveStr("text", t)
	if n == 0 {
		sym.Assert(t != "", "a text without diagnostics")
		return
	}
	sym.Assert(strings.Contains(t, "s0"), "the text has the first summary")
	sym.Assert(strings.Contains(t, string([]byte{byte('0' + n - 1)})+" other") == (n > 1), "the text counts the others")
}
