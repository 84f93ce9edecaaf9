package hgo

import (
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

type service struct {
	Kind  string            `hcl:"kind,label"`
	Name  string            `hcl:"name,label"`
	Text  string            `hcl:"text"`
	Opt   *string           `hcl:"opt"`
	Tags  map[string]string `hcl:"tags"`
	Ports []port            `hcl:"port,block"`
}

type port struct {
	N  int64 `hcl:"n,optional"`
	On *bool `hcl:"on"`
}

type conf struct {
	S      string         `hcl:"s"`
	N      *int           `hcl:"n"`
	L      []string       `hcl:"l,optional"`
	F      *float64       `hcl:"f"`
	LL     [][]bool       `hcl:"ll,optional"`
	One    *service       `hcl:"one,block"`
	B      bool           `hcl:"b"`
	Port   port           `hcl:"port,block"`
	Many   []*service     `hcl:"many,block"`
	Expr   hcl.Expression `hcl:"expr"`
	Attr   *hcl.Attribute `hcl:"attr"`
	Raw    hcl.Body       `hcl:"raw,block"`
	Raws   []*hcl.Block   `hcl:"raws,block"`
	RawOne *hcl.Block     `hcl:"rawone,block"`
	Attrs  hcl.Attributes `hcl:"attrs,block"`
	Rest   hcl.Body       `hcl:",remain"`
}

const textAlpha = "a\"\\$%{}\n~\t\r\x00<"

func text() string {
	n := sym.Choice(sym.Param("text", 2) + 1)
	return sym.StrIn(textAlpha, n)
}

func genService(k int) *service {
	s := &service{Kind: "k", Name: "n", Text: "t"}
	switch sym.Choice(6) {
	case 0:
		s.Kind = text()
	case 1:
		s.Name = text()
	case 2:
		s.Text = text()
	case 3:
		t := text()
		s.Opt = &t
	case 4:
		s.Tags = map[string]string{text(): "x"}
		if sym.Bool() {
			s.Tags["b"] = text()
		}
	case 5:
		for i := sym.Choice(3); i > 0; i-- {
			p := port{N: int64([]int{0, -2, 12}[sym.Choice(3)])}
			if sym.Bool() {
				b := sym.Bool()
				p.On = &b
			}
			s.Ports = append(s.Ports, p)
		}
	}
	return s
}

// RoundTrip: a struct written as source and read back.
func RoundTrip() {
	c := &conf{S: "s"}
	switch sym.Choice(9) {
	case 7:
		f := []float64{0, 0.5, -2.25, 1e21, 1e-7, 123456.75}[sym.Choice(6)]
		c.F = &f
	case 8:
		for i := sym.Choice(3); i > 0; i-- {
			var l []bool
			for j := sym.Choice(3); j > 0; j-- {
				l = append(l, sym.Bool())
			}
			c.LL = append(c.LL, l)
		}
	case 0:
		c.S = text()
	case 1:
		n := []int{0, 7, -1, 10, 100, -1100, 1 << 40, -1 << 63, 1<<63 - 1}[sym.Choice(9)]
		c.N = &n
	case 2:
		for i := sym.Choice(3); i > 0; i-- {
			c.L = append(c.L, text())
		}
		if c.L == nil && sym.Bool() {
			c.L = []string{}
		}
	case 3:
		c.One = genService(0)
	case 4:
		c.B = sym.Bool()
		c.Port.N = int64(sym.Choice(3))
	case 5:
		for i := sym.Choice(3); i > 0; i-- {
			c.Many = append(c.Many, &service{Kind: "k", Name: string([]byte{sym.ByteIn("abc")})})
		}
		if sym.Bool() {
			c.Many = append(c.Many, nil) // left out
		}
		c.Many = append(c.Many, genService(1))
	case 6:
		// Undecoded parts are left out.
		e := hcl.StaticExpr(lib.StrC("z"), hcl.Range{})
		switch sym.Choice(6) {
		case 0:
			c.Expr = e
		case 1:
			c.Attr = &hcl.Attribute{Name: "attr", Expr: e}
		case 2:
			c.Raw = hcl.EmptyBody()
		case 3:
			c.Raws = []*hcl.Block{{Type: "raws", Body: hcl.EmptyBody()}}
		case 4:
			c.RawOne = &hcl.Block{Type: "rawone", Body: hcl.EmptyBody()}
		case 5:
			c.Attrs = hcl.Attributes{"x": &hcl.Attribute{Name: "x", Expr: e}}
		}
	}
	f := hclwrite.NewEmptyFile()
	if sym.Bool() {
		gohcl.EncodeIntoBody(c, f.Body())
	} else {
		gohcl.EncodeIntoBody(*c, f.Body())
	}
	src := f.Bytes()
	sym.ObserveBytes("src", src)
	p, diags := hclsyntax.ParseConfig(src, "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "what was written is valid")
	if diags.HasErrors() {
		return
	}
	var got conf2
	diags = gohcl.DecodeBody(p.Body, nil, &got)
	sym.Assert(!diags.HasErrors(), "what was written can be read")
	if diags.HasErrors() {
		return
	}
	sym.Assert(got.S == c.S, "a string comes back")
	sym.Assert((got.N == nil) == (c.N == nil) && (c.N == nil || *got.N == *c.N), "a number comes back")
	sym.Assert(len(got.L) == len(c.L) && (got.L == nil) == (c.L == nil), "a list comes back")
	for i := range c.L {
		if i < len(got.L) {
			sym.Assert(got.L[i] == c.L[i], "elements come back")
		}
	}
	sym.Assert((got.F == nil) == (c.F == nil) && (c.F == nil || *got.F == *c.F), "a fraction comes back")
	sym.Assert(len(got.LL) == len(c.LL), "a list of lists comes back")
	for i := range c.LL {
		if i < len(got.LL) {
			sym.Assert(len(got.LL[i]) == len(c.LL[i]), "an inner list comes back")
			for j := range c.LL[i] {
				if j < len(got.LL[i]) {
					sym.Assert(got.LL[i][j] == c.LL[i][j], "elements of an inner list come back")
				}
			}
		}
	}
	sym.Assert(got.B == c.B && samePort(got.Port, c.Port), "a block comes back")
	sym.Assert((got.One == nil) == (c.One == nil), "an optional block comes back")
	if got.One != nil && c.One != nil {
		sameService(got.One, c.One)
	}
	var many []*service
	for _, m := range c.Many {
		if m != nil {
			many = append(many, m)
		}
	}
	sym.Assert(len(got.Many) == len(many), "repeated blocks come back")
	for i := range many {
		if i < len(got.Many) {
			sameService(got.Many[i], many[i])
		}
	}
	sym.Cover("round trip")
}

// conf2 is what of conf is written.
type conf2 struct {
	S    string     `hcl:"s"`
	N    *int       `hcl:"n"`
	L    []string   `hcl:"l,optional"`
	F    *float64   `hcl:"f"`
	LL   [][]bool   `hcl:"ll,optional"`
	B    bool       `hcl:"b"`
	One  *service   `hcl:"one,block"`
	Port port       `hcl:"port,block"`
	Many []*service `hcl:"many,block"`
}

func samePort(a, b port) bool {
	if (a.On == nil) != (b.On == nil) || a.On != nil && *a.On != *b.On {
		return false
	}
	return a.N == b.N
}

func sameService(a, b *service) {
	sym.Assert(a.Kind == b.Kind && a.Name == b.Name, "labels come back")
	sym.Assert(a.Text == b.Text, "a string of a block comes back")
	sym.Assert((a.Opt == nil) == (b.Opt == nil) && (a.Opt == nil || *a.Opt == *b.Opt), "an optional string comes back")
	sym.Assert(len(a.Tags) == len(b.Tags) && (a.Tags == nil) == (b.Tags == nil), "a map comes back")
	for k, v := range b.Tags {
		g, ok := a.Tags[k]
		sym.Assert(ok && g == v, "elements of a map come back")
	}
	sym.Assert(len(a.Ports) == len(b.Ports), "nested blocks come back")
	for i := range b.Ports {
		if i < len(a.Ports) {
			sym.Assert(samePort(a.Ports[i], b.Ports[i]), "a nested block comes back")
		}
	}
}
