// Package hops holds the harnesses about operators.
package hops

import (
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/zzverif/lib"
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// A value of the reference evaluator: a number or a truth value.
type val struct {
	num  bool
	n, d int // n/d in lowest terms, d > 0
	b    bool
	err  bool
}

func gcd(a, b int) int {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	if a == 0 {
		return 1
	}
	return a
}

func frac(n, d int) val {
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(n, d)
	return val{num: true, n: n / g, d: d / g}
}

var failed = val{err: true}

// level of each binary operator, loosest first
func level(op string) int {
	switch op {
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=":
		return 3
	case "<", ">", "<=", ">=":
		return 4
	case "+", "-":
		return 5
	case "*", "/", "%":
		return 6
	}
	return 0
}

func apply(op string, x, y val) val {
	if x.err || y.err {
		return failed
	}
	switch op {
	case "||", "&&":
		if x.num || y.num {
			return failed
		}
		if op == "||" {
			return val{b: x.b || y.b}
		}
		return val{b: x.b && y.b}
	case "==", "!=":
		eq := x.num == y.num && x.b == y.b && x.n == y.n && x.d == y.d
		return val{b: eq == (op == "==")}
	}
	if !x.num || !y.num {
		return failed
	}
	l, r := x.n*y.d, y.n*x.d
	switch op {
	case "<":
		return val{b: l < r}
	case ">":
		return val{b: l > r}
	case "<=":
		return val{b: l <= r}
	case ">=":
		return val{b: l >= r}
	case "+":
		return frac(l+r, x.d*y.d)
	case "-":
		return frac(l-r, x.d*y.d)
	case "*":
		return frac(x.n*y.n, x.d*y.d)
	case "/":
		if y.n == 0 {
			return failed
		}
		return frac(x.n*y.d, x.d*y.n)
	case "%":
		if y.n == 0 {
			return failed
		}
		// remainder of the truncated quotient
		return frac(l%r, x.d*y.d)
	}
	return failed
}

// eval reduces operands and operators by repeatedly applying the tightest,
// leftmost operator.
func eval(vals []val, ops []string) val {
	for len(ops) > 0 {
		best := 0
		for i := range ops {
			if level(ops[i]) > level(ops[best]) {
				best = i
			}
		}
		r := apply(ops[best], vals[best], vals[best+1])
		nv := append([]val(nil), vals[:best]...)
		nv = append(nv, r)
		vals = append(nv, vals[best+2:]...)
		no := append([]string(nil), ops[:best]...)
		ops = append(no, ops[best+1:]...)
	}
	return vals[0]
}

var operators = []string{"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}

// operator returns the text of an operator built from symbolic characters.
func operator() string {
	c1 := sym.ByteIn("|&=!<>+-*/%")
	c2 := sym.ByteIn("|&= ")
	op := string([]byte{c1, c2})
	if c2 == ' ' {
		op = op[:1]
	}
	sym.Assume(level(op) != 0)
	for _, o := range operators {
		if op == o {
			return o
		}
	}
	return op
}

// operand returns an operand text and its value.
func operand(c byte) (string, val) {
	switch c {
	case 't':
		return "true", val{b: true}
	case 'f':
		return "false", val{}
	}
	return string([]byte{c}), frac(int(c-'0'), 1)
}

func check(src string, want val) {
	sym.ObserveStr("src", src)
	e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", lib.Start)
	sym.Assert(!diags.HasErrors(), "operator expressions parse")
	v, diags := e.Value(nil)
	if want.err {
		sym.Assert(diags.HasErrors(), "invalid operands are reported")
		return
	}
	sym.Assert(!diags.HasErrors(), "valid operands are accepted")
	sym.Cover("value")
	sym.ObserveStr("v", lib.Show(v))
	if want.num {
		sym.Assert(v.Type() == cty.Number, "arithmetic gives a number")
		// want.n/want.d compared by cross multiplication (exact unless the
		// quotient is not a binary fraction, where a tolerance is needed)
		d := v.Multiply(cty.NumberIntVal(int64(want.d))).Subtract(cty.NumberIntVal(int64(want.n)))
		eps := cty.NumberFloatVal(1e-12)
		sym.Assert(d.LessThan(eps).True() && d.Negate().LessThan(eps).True(), "the number is the one precedence prescribes")
		return
	}
	sym.Assert(v.Type() == cty.Bool, "logic gives a truth value")
	sym.Assert(v.True() == want.b, "the truth value is the one precedence prescribes")
}

func concrete(set string) byte {
	return set[sym.Choice(len(set))]
}

// Chain evaluates operator chains of k operators.
func Chain() {
	k := sym.Param("k", 2)
	set := "275"
	var vals []val
	var ops []string
	src := ""
	for i := 0; i <= k; i++ {
		c := set[i%3]
		if i > 0 {
			ops = append(ops, operator())
			src += " " + ops[i-1] + " "
		}
		if sym.Bool() {
			c = 't'
			if i%2 == 1 {
				c = 'f'
			}
		}
		t, v := operand(c)
		src += t
		vals = append(vals, v)
	}
	check(src, eval(vals, ops))
}

// Groups evaluates chains with parentheses, unary operators and conditionals.
func Groups() {
	k := sym.Param("k", 2)
	set := "385"
	var vals []val
	var ops []string
	src := ""
	open := -1
	var gv []val
	var gop []string
	for i := 0; i <= k; i++ {
		if i > 0 {
			o := operator()
			if open >= 0 {
				gop = append(gop, o)
			} else {
				ops = append(ops, o)
			}
			src += " " + o
		}
		var un []byte
		switch sym.Choice(4) {
		case 1:
			un = []byte("-")
		case 2:
			un = []byte("!")
		case 3:
			if open < 0 && i < k {
				open = i
				gv, gop = nil, nil
				src += "("
			}
		}
		c := set[i%3]
		if sym.Bool() {
			c = 'f'
		}
		t, v := operand(c)
		if len(un) > 0 {
			src += string(un)
			if un[0] == '-' {
				if v.num {
					v = frac(-v.n, v.d)
				} else {
					v = failed
				}
			} else {
				if v.num {
					v = failed
				} else {
					v = val{b: !v.b}
				}
			}
		}
		src += t
		if open >= 0 {
			gv = append(gv, v)
			if i > open {
				src += ")"
				vals = append(vals, eval(gv, gop))
				open = -1
			}
		} else {
			vals = append(vals, v)
		}
	}
	check(src, eval(vals, ops))
}

// Conditional checks that a conditional binds looser than every operator and
// nests to the right.
func Conditional() {
	o1, o2, o3 := operator(), operator(), operator()
	pc := sym.Bool()
	cond := "false"
	if pc {
		cond = "true"
	}
	src := cond + "||" + "false" + "?" + "1" + o1 + "2" + ":" + "3" + o2 + "4"
	var want val
	if sym.Bool() {
		src = cond + "?" + "5" + o1 + "6" + ":false?7:" + "8" + o2 + "9" + o3 + "1"
		if pc {
			want = apply(o1, frac(5, 1), frac(6, 1))
		} else {
			want = eval([]val{frac(8, 1), frac(9, 1), frac(1, 1)}, []string{o2, o3})
		}
		sym.Assume(level(o1) > 4 && level(o2) > 4 && level(o3) > 4)
	} else {
		x, y := apply(o1, frac(1, 1), frac(2, 1)), apply(o2, frac(3, 1), frac(4, 1))
		sym.Assume(x.num == y.num && !x.err && !y.err)
		want = y
		if pc {
			want = x
		}
	}
	check(src, want)
}
