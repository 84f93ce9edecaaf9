package hsyn

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// forms are expressions with places for others.
var forms = []string{
	"f(@, @)", "f(@...)", "(@)", "-@", "!@", "@ + @ * @", "@ == @ && @", "@ ? @ : @",
	"[@, @]", "{ (@) = @, b = @ }", "{ \"k${@}\" : @ }", "[for v in @ : @]", "[for k, v in @ : @ if @]",
	"{ for v in @ : @ => @... if @ }", "x[@ + 1]", "(@)[*].y[@ + 1]", "(@).*.y", "(@).z[0]",
	"\"a${@}b${~ @ ~}\"", "\"%{ if @ }${@}%{ else }${@}%{ endif }\"", "\"%{ for v in @ }c${@}%{ endfor }\"", "\"${@}\"", "(<<A\nt${@}\nA\n)",
}

// leaf has the characters of the numbers and names.
const leaf = "1v"

// bodies are configurations with places for expressions.
var bodies = []string{"a = @\nc = @\n", "a = @\nb {\n  a = @\n}\n", "b \"l\" { a = x }\nb {\n  c \"x\" y {\n    a = @\n  }\n  a = @\n}\nd = @\n"}

// walkGen fills the places with numbers and names.
type walkGen struct {
	out []byte
	at  []int // where they are
}

func (g *walkGen) fill(form string, depth int) {
	nested := sym.Choice(4) // the place that gets another form
	for i := 0; i < len(form); i++ {
		if form[i] != '@' {
			g.out = append(g.out, form[i])
			continue
		}
		if depth > 0 && nested == 0 {
			g.fill(forms[sym.Choice(sym.Param("forms", len(forms)))], depth-1)
		} else {
			g.at = append(g.at, len(g.out))
			g.out = append(g.out, sym.ByteIn(leaf))
		}
		nested--
	}
}

type walker struct {
	nodes []hclsyntax.Node // entered, in order
	open  []int
	exits int
	diags hcl.Diagnostics
}

func (w *walker) diag() hcl.Diagnostics {
	d := &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "s"}
	w.diags = append(w.diags, d)
	return hcl.Diagnostics{d}
}

func (w *walker) Enter(n hclsyntax.Node) hcl.Diagnostics {
	w.open = append(w.open, len(w.nodes))
	w.nodes = append(w.nodes, n)
	return w.diag()
}

func (w *walker) Exit(n hclsyntax.Node) hcl.Diagnostics {
	w.exits++
	if len(w.open) == 0 {
		sym.Fail("a construct is left only after it was entered")
		return nil
	}
	last := w.open[len(w.open)-1]
	w.open = w.open[:len(w.open)-1]
	if as, ok := w.nodes[last].(hclsyntax.Attributes); ok {
		// the range of a set of attributes is that of any of them
		left, ok := n.(hclsyntax.Attributes)
		sym.Assert(ok && len(left) == len(as), "the attributes left are those entered last")
	} else {
		sym.Assert(n.Range() == w.nodes[last].Range(), "the construct left is the one entered last")
	}
	if len(w.nodes)%2 == 0 {
		return nil
	}
	return w.diag()
}

func sameDiags(got, want hcl.Diagnostics) {
	sym.Assert(len(got) == len(want), "all the diagnostics are returned")
	for i := range want {
		if i < len(got) {
			sym.Assert(got[i] == want[i], "the diagnostics are returned in order")
		}
	}
}

// walked checks which numbers, names, attributes and blocks were entered.
func walked(nodes []hclsyntax.Node, at []int, attrs, blocks int) {
	seen := make([]int, len(at))
	a, b := 0, 0
	for _, node := range nodes {
		switch node.(type) {
		case *hclsyntax.LiteralValueExpr, *hclsyntax.ScopeTraversalExpr:
			for i, p := range at {
				if node.Range().Start.Byte == p {
					seen[i]++
				}
			}
		case *hclsyntax.Attribute:
			a++
		case *hclsyntax.Block:
			b++
		}
	}
	for _, n := range seen {
		sym.Assert(n == 1, "every part is entered once")
	}
	sym.Assert(a == attrs && b == blocks, "every attribute and block is entered once")
}

// Walks: walking enters and leaves every construct once.
func Walks() {
	g := &walkGen{}
	k := sym.Choice(len(bodies) + 1)
	var root hclsyntax.Node
	attrs, blocks := 0, 0
	if k == 0 {
		g.fill("@", sym.Param("depth", 2))
		sym.ObserveBytes("src", g.out)
		e, diags := hclsyntax.ParseExpression(g.out, "t.hcl", lib.Start)
		sym.Assert(!diags.HasErrors(), "the expression is valid")
		root = e
	} else {
		g.fill(bodies[k-1], 1)
		sym.ObserveBytes("src", g.out)
		f, diags := hclsyntax.ParseConfig(g.out, "t.hcl", lib.Start)
		sym.Assert(!diags.HasErrors(), "the configuration is valid")
		root = f.Body.(*hclsyntax.Body)
		attrs = []int{2, 2, 4}[k-1]
		blocks = []int{0, 1, 3}[k-1]
	}
	w := &walker{}
	diags := hclsyntax.Walk(root, w)
	sym.Assert(len(w.open) == 0 && w.exits == len(w.nodes), "every construct entered is left")
	sameDiags(diags, w.diags)
	walked(w.nodes, g.at, attrs, blocks)
	v := &walker{}
	diags = hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		v.nodes = append(v.nodes, n)
		if len(v.nodes)%3 == 0 {
			return nil
		}
		return v.diag()
	})
	sameDiags(diags, v.diags)
	sym.Assert(len(v.nodes) == len(w.nodes), "visiting meets the same constructs")
	walked(v.nodes, g.at, attrs, blocks)
	sym.Cover("walked")
}
