package hwrite

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
)

// trav is a variable with steps: names, or an index if there is no name.
type trav struct {
	names  []string
	legacy bool
}

func (t trav) text(gap string) string {
	out := t.names[0]
	for _, n := range t.names[1:] {
		switch {
		case n != "":
			out += gap + "." + n
		case t.legacy:
			out += " .0"
		default:
			out += "[" + gap + "0" + gap + "]"
		}
	}
	return out
}

// renamed gives the variable with the names replaced if it has the prefix.
func (t trav) renamed(search, to []string) trav {
	if len(t.names) < len(search) {
		return t
	}
	for i, n := range search {
		if t.names[i] != n {
			return t
		}
	}
	names := append([]string{}, to...)
	return trav{append(names, t.names[len(search):]...), t.legacy}
}

func word() string {
	switch sym.Choice(3) {
	case 0:
		return string([]byte{sym.ByteIn("ab")})
	case 1:
		return "a" + string([]byte{sym.ByteIn("ab")})
	}
	return "ü"
}

func (d *doc) trav() trav {
	t := trav{names: []string{word()}}
	for n := sym.Choice(sym.Param("steps", 3)); n > 0; n-- {
		switch i := sym.Choice(5); i {
		case 0, 1:
			t.names = append(t.names, "")
			t.legacy = i == 1
		default:
			t.names = append(t.names, []string{"a", "aa", "b"}[i-2])
		}
	}
	return t
}

// frames are expressions with places A and B for variables.
var frames = []string{"A", "(A)", "f(A, B...)", "A[B]", "A[*].z", "\"A${A}%{if B}x%{endif}\"", "{ (A) = B }", "[for q in A : B]", "A ? B : A", "-A + B", "{ a = A, b = [B] }", "<<A\n${B}\nA", "A.*.z"}

func fill(frame, a, b string) string {
	out := ""
	for i := 0; i < len(frame); i++ {
		c := frame[i]
		switch {
		case c == 'A' && !(i > 0 && (frame[i-1] == '"' || frame[i-1] == '<' || frame[i-1] == '\n')):
			out += a
		case c == 'B':
			out += b
		default:
			out += string([]byte{c})
		}
	}
	return out
}

// Rename: variables of an expression are found and renamed by prefix.
func Rename() {
	d := &doc{}
	frame := frames[sym.Choice(sym.Param("frames", len(frames)))]
	a, b := d.trav(), trav{names: []string{"a"}}
	if sym.Param("two", 0) == 1 {
		b = d.trav()
	}
	gap := " "[:sym.Param("gap", 0)]
	src := "x = " + fill(frame, a.text(gap), b.text(gap)) + "\n"
	sym.ObserveStr("src", src)
	f, diags := hclwrite.ParseConfig([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors() && f != nil, "the document loads")
	if f == nil {
		return
	}
	e := f.Body().GetAttribute("x").Expr()
	plain, _ := hclsyntax.ParseConfig([]byte(src), "t.hcl", lib.Start)
	native := plain.Body.(*hclsyntax.Body).Attributes["x"].Expr.Variables()
	vars := e.Variables()
	sym.Assert(len(vars) == len(native), "as many variables as the expression has")
	for i, v := range vars {
		if i < len(native) {
			rng := native[i].SourceRange()
			sameTokens(v.BuildTokens(nil).Bytes(), []byte(src[rng.Start.Byte:rng.End.Byte]), "a variable has its tokens")
		}
	}
	n := 1 + sym.Choice(3)
	search := []string{word(), "a", "aa"}[:n]
	if sym.Choice(2) == 1 {
		search = []string{word(), "a", "b"}[:n]
	}
	to := []string{"n1", "q", "n3"}[:n]
	e.RenameVariablePrefix(search, to)
	ra, rb := a.renamed(search, to), b.renamed(search, to)
	want := "x = " + fill(frame, ra.text(gap), rb.text(gap)) + "\n"
	got := f.Bytes()
	sym.ObserveStr("want", want)
	sym.ObserveBytes("got", got)
	sameTokens(got, []byte(want), "the variables with the prefix are renamed")
	sym.Cover("renamed")
}
