// Package hpos holds the harnesses about lookups by source position.
package hpos

import (
	"strconv"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

type item struct {
	so, eo int // whole construct
	vs, ve int // value of an attribute, header of a block
	name   string
	ctx    string
	attr   bool
	kids   []*item
}

type gen struct {
	src  []byte
	next int
	left int
}

func (g *gen) name(p string) string {
	g.next++
	return p + strconv.Itoa(g.next)
}

// pick makes a choice about the layout, or with plain layout a fixed one.
func (g *gen) pick(n int) int {
	if sym.Param("plain", 0) != 0 {
		return g.next % n
	}
	return sym.Choice(n)
}

func (g *gen) gap(set string) { g.src = append(g.src, sym.ByteIn(set)) }

func (g *gen) body(depth int) []*item {
	var out []*item
	for i := 0; i < 3 && g.left > 0; i++ {
		k := sym.Choice(3)
		if k == 0 {
			break
		}
		g.left--
		it := &item{}
		if g.pick(2) == 0 {
			g.gap(" \n\t")
		}
		switch k {
		case 1:
			it.name, it.attr = g.name("a"), true
			it.so = len(g.src)
			g.src = append(g.src, it.name...)
			g.src = append(g.src, " ="...)
			g.gap(" \t")
			it.vs = len(g.src)
			g.src = append(g.src, []string{"1", "[\n1]", "\"{ a = 1 }\""}[g.pick(3)]...)
			it.ve = len(g.src)
			it.eo = len(g.src)
		case 2:
			it.name = g.name("b")
			it.ctx = it.name
			it.so = len(g.src)
			g.src = append(g.src, it.name...)
			if k := g.pick(3); k > 0 {
				if k == 1 {
					g.src = append(g.src, " \"l\" m"...)
					it.ctx += " \"l\" \"m\""
				} else {
					g.src = append(g.src, " l"...)
					it.ctx += " \"l\""
				}
			}
			g.src = append(g.src, ' ')
			g.gap(" \t")
			g.src = append(g.src, '{')
			it.vs, it.ve = it.so, len(g.src)
			if depth > 0 && sym.Choice(2) == 0 {
				g.src = append(g.src, '\n')
				it.kids = g.body(depth - 1)
			}
			g.src = append(g.src, '}')
			it.eo = len(g.src)
		}
		g.src = append(g.src, '\n')
		out = append(out, it)
	}
	return out
}

func find(items []*item, ofs int) *item {
	for _, it := range items {
		if ofs >= it.so && ofs < it.eo {
			return it
		}
	}
	return nil
}

// Lookup compares every position lookup with the known layout of the text.
func Lookup() {
	g := &gen{left: sym.Param("items", 3)}
	items := g.body(sym.Param("depth", 2))
	src := g.src
	sym.ObserveBytes("src", src)
	f, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "a well-formed configuration is accepted")
	ofs := sym.IntRange(-1, len(src)+1)
	sym.ObserveInt("ofs", ofs)

	var chain []*item
	var attr *item
	in := items
	for {
		it := find(in, ofs)
		if it == nil {
			break
		}
		if it.attr {
			attr = it
			break
		}
		chain = append(chain, it)
		in = it.kids
	}
	pos := hcl.Pos{Line: 1, Column: 1, Byte: ofs}
	list := f.BlocksAtPos(pos)
	for _, b := range list {
		sym.ObserveStr("block", b.Type)
	}
	sym.Assert(len(list) == len(chain), "all blocks enclosing a position are listed")
	for i, b := range list {
		sym.Assert(b.Type == chain[i].name, "enclosing blocks are listed from the outside in")
	}
	out, inn := f.OutermostBlockAtPos(pos), f.InnermostBlockAtPos(pos)
	if len(chain) == 0 {
		sym.Cover("none")
		sym.Assert(out == nil && inn == nil, "no block is found where there is none")
	} else {
		sym.Cover("some")
		sym.Assert(out != nil && out.Type == chain[0].name, "the outermost block is the first enclosing one")
		sym.Assert(inn != nil && inn.Type == chain[len(chain)-1].name, "the innermost block is the last enclosing one")
	}
	at := f.AttributeAtPos(pos)
	ex := f.OutermostExprAtPos(pos)
	if attr == nil {
		sym.Assert(at == nil && ex == nil, "no attribute or expression is found where there is none")
	} else {
		sym.Cover("attr")
		sym.Assert(at != nil && at.Name == attr.name, "the attribute at a position is the enclosing one")
		if ofs >= attr.vs && ofs < attr.ve {
			sym.Cover("expr")
			sym.Assert(ex != nil, "the expression at a position is found")
			r := ex.Range()
			sym.Assert(r.Start.Byte >= attr.vs && r.End.Byte <= attr.ve, "the expression is that of the enclosing attribute")
		} else {
			sym.Assert(ex == nil, "no expression is found outside of attribute values")
		}
	}
	cs := hcled.ContextString(f, ofs)
	dr := hcled.ContextDefRange(f, ofs)
	sym.ObserveStr("ctx", cs)
	if len(chain) == 0 {
		sym.Assert(cs == "", "there is no context outside of blocks")
		sym.Assert(dr == f.Body.MissingItemRange(), "the definition range outside of blocks is that of the file")
	} else {
		sym.Assert(cs == chain[0].ctx, "the context is the header of the outermost block")
		sym.Assert(dr.Start.Byte == chain[0].vs && dr.End.Byte == chain[0].ve, "the definition range is the header of the outermost block")
	}
}
