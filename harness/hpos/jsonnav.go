package hpos

import (
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

type jcont struct {
	from, to int
	path     string
}

type jgen struct {
	src   []byte
	left  int
	conts []*jcont
}

func (g *jgen) val(depth int, path string) {
	g.left--
	kind := 0
	if g.left > 0 {
		kind = sym.Choice(3)
	}
	if depth == 0 && kind == 0 {
		kind = 1
	}
	if kind == 0 {
		g.src = append(g.src, sym.ByteIn("123"))
		return
	}
	c := &jcont{from: len(g.src), path: path}
	g.conts = append(g.conts, c)
	open, end := byte('{'), byte('}')
	if kind == 2 {
		open, end = '[', ']'
	}
	g.src = append(g.src, open)
	for i := 0; i < 2 && g.left > 0 && sym.Bool(); i++ {
		if i > 0 {
			g.src = append(g.src, ',')
		}
		if sym.Bool() {
			g.src = append(g.src, sym.ByteIn(" \n"))
		}
		step := "[" + string([]byte{byte('0' + i)}) + "]"
		if kind == 1 {
			k := sym.ByteIn("ab")
			g.src = append(g.src, '"', k, '"', ':')
			step = "." + string([]byte{k})
		}
		g.val(depth+1, path+step)
	}
	g.src = append(g.src, end)
	c.to = len(g.src)
}

// JSONNav: the context of any offset of a JSON document.
func JSONNav() {
	g := &jgen{left: sym.Param("n", 4)}
	g.val(0, "")
	g.src = append(g.src, ' ')
	sym.ObserveBytes("src", g.src)
	f, diags := json.Parse(g.src, "t.json")
	sym.Assert(!diags.HasErrors(), "the document is valid")
	off := sym.Choice(len(g.src) + 1)
	sym.ObserveInt("offset", off)
	want := ""
	for _, c := range g.conts {
		if c.from <= off && off < c.to {
			want = c.path // nested containers follow their parents
		}
	}
	if want != "" && want[0] == '.' {
		want = want[1:]
	}
	got := hcled.ContextString(f, off)
	sym.ObserveStr("context", got)
	sym.Assert(got == want, "the context names the innermost container")
	if want != "" {
		sym.Cover("inside")
	}
}
