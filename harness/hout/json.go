package hout

import (
	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// node is a JSON value: kind is one of "ntf0s[{". Keys and kids are the
// properties of an object or the elements of an array.
type node struct {
	kind byte
	s    string
	keys []string
	kids []*node
}

type reader struct {
	b  []byte
	ok bool
}

func readJSON(b []byte) *node {
	r := &reader{b, true}
	n := r.value()
	r.space()
	sym.Assert(r.ok && len(r.b) == 0, "the output is valid JSON")
	return n
}

func (r *reader) space() {
	for len(r.b) > 0 && (r.b[0] == ' ' || r.b[0] == '\n' || r.b[0] == '\t' || r.b[0] == '\r') {
		r.b = r.b[1:]
	}
}

func (r *reader) eat(c byte) bool {
	r.space()
	if len(r.b) > 0 && r.b[0] == c {
		r.b = r.b[1:]
		return true
	}
	return false
}

func (r *reader) need(c byte) {
	if !r.eat(c) {
		r.ok = false
	}
}

func (r *reader) value() *node {
	r.space()
	if len(r.b) == 0 || !r.ok {
		r.ok = false
		return &node{kind: 'n'}
	}
	switch c := r.b[0]; c {
	case '{':
		r.b = r.b[1:]
		n := &node{kind: '{'}
		if r.eat('}') {
			return n
		}
		for r.ok {
			n.keys = append(n.keys, r.str())
			r.need(':')
			n.kids = append(n.kids, r.value())
			if r.eat('}') {
				return n
			}
			r.need(',')
		}
		return n
	case '[':
		r.b = r.b[1:]
		n := &node{kind: '['}
		if r.eat(']') {
			return n
		}
		for r.ok {
			n.kids = append(n.kids, r.value())
			if r.eat(']') {
				return n
			}
			r.need(',')
		}
		return n
	case '"':
		return &node{kind: 's', s: r.str()}
	case 'n', 't', 'f':
		for _, w := range []string{"null", "true", "false"} {
			if w[0] == c && len(r.b) >= len(w) && string(r.b[:len(w)]) == w {
				r.b = r.b[len(w):]
				return &node{kind: c}
			}
		}
		r.ok = false
		return &node{kind: 'n'}
	}
	i := 0
	for i < len(r.b) && (r.b[i] >= '0' && r.b[i] <= '9' || r.b[i] == '-' || r.b[i] == '+' || r.b[i] == '.' || r.b[i] == 'e' || r.b[i] == 'E') {
		i++
	}
	if i == 0 {
		r.ok = false
	}
	n := &node{kind: '0', s: string(r.b[:i])}
	r.b = r.b[i:]
	return n
}

func (r *reader) str() string {
	if !r.eat('"') {
		r.ok = false
		return ""
	}
	var s []byte
	for len(r.b) > 0 && r.b[0] != '"' {
		c := r.b[0]
		r.b = r.b[1:]
		if c != '\\' {
			s = append(s, c)
			continue
		}
		if len(r.b) == 0 {
			break
		}
		c = r.b[0]
		r.b = r.b[1:]
		switch c {
		case 'n':
			s = append(s, '\n')
		case 't':
			s = append(s, '\t')
		case 'r':
			s = append(s, '\r')
		case 'b':
			s = append(s, '\b')
		case 'f':
			s = append(s, '\f')
		case 'u':
			if len(r.b) < 4 {
				r.ok = false
				return ""
			}
			v := rune(0)
			for _, d := range r.b[:4] {
				switch {
				case d >= '0' && d <= '9':
					v = v*16 + rune(d-'0')
				case d >= 'a' && d <= 'f':
					v = v*16 + rune(d-'a'+10)
				case d >= 'A' && d <= 'F':
					v = v*16 + rune(d-'A'+10)
				default:
					r.ok = false
				}
			}
			r.b = r.b[4:]
			s = append(s, string(v)...)
		default:
			s = append(s, c)
		}
	}
	if !r.eat('"') {
		r.ok = false
	}
	return string(s)
}

// get returns a property, and nil if there is none.
func (n *node) get(k string) *node {
	for i := range n.keys {
		if n.keys[i] == k {
			return n.kids[i]
		}
	}
	return nil
}

// num returns the number that a property is, or -1.
func (n *node) num(k string) int {
	p := n.get(k)
	if p == nil || p.kind != '0' {
		return -1
	}
	v := 0
	for i := 0; i < len(p.s); i++ {
		v = v*10 + int(p.s[i]-'0')
	}
	return v
}

func (n *node) str(k string) string {
	if p := n.get(k); p != nil && p.kind == 's' {
		return p.s
	}
	return ""
}

// is tells whether a JSON value is the given value without the null
// properties of objects and maps.
func (n *node) is(v cty.Value) bool {
	if v.IsNull() {
		return n.kind == 'n'
	}
	ty := v.Type()
	switch {
	case ty == cty.String:
		return n.kind == 's' && n.s == v.AsString()
	case ty == cty.Bool:
		return n.kind == 't' && v.True() || n.kind == 'f' && v.False()
	case ty == cty.Number:
		if n.kind != '0' {
			return false
		}
		w, err := cty.ParseNumberVal(n.s)
		return err == nil && w.RawEquals(v)
	case ty.IsObjectType() || ty.IsMapType():
		if n.kind != '{' {
			return false
		}
		c := 0
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			p := n.get(k.AsString())
			if e.IsNull() {
				if p != nil {
					return false
				}
				continue
			}
			if p == nil || !p.is(e) {
				return false
			}
			c++
		}
		return c == len(n.keys)
	}
	if n.kind != '[' || len(n.kids) != v.LengthInt() {
		return false
	}
	i := 0
	for it := v.ElementIterator(); it.Next(); i++ {
		_, e := it.Element()
		if !n.kids[i].is(e) {
			return false
		}
	}
	return true
}
