package lib

// JNode is a JSON value according to the reference grammar.
type JNode struct {
	Kind byte // { [ s n t f 0
	Text string
	// Names and Elems are the members of an object or the elements of an array.
	Names     []string
	NameStart []int
	Elems     []*JNode
	Start     int
	End       int
}

type jp struct {
	src []byte
	i   int
}

func (p *jp) ws() {
	for p.i < len(p.src) && (p.src[p.i] == ' ' || p.src[p.i] == '\n' || p.src[p.i] == '\r' || p.src[p.i] == '\t') {
		p.i++
	}
}

func (p *jp) eat(c byte) bool {
	if p.i < len(p.src) && p.src[p.i] == c {
		p.i++
		return true
	}
	return false
}

// RefJSON parses one JSON text (RFC 8259); nil when it is not valid.
func RefJSON(src []byte) *JNode {
	p := &jp{src: src}
	n := p.value()
	p.ws()
	if n == nil || p.i < len(src) {
		return nil
	}
	return n
}

func (p *jp) value() *JNode {
	p.ws()
	if p.i >= len(p.src) {
		return nil
	}
	n := &JNode{Kind: p.src[p.i], Start: p.i}
	switch c := p.src[p.i]; {
	case c == '{':
		p.i++
		p.ws()
		if p.eat('}') {
			break
		}
		for {
			p.ws()
			at := p.i
			name, ok := p.str()
			if !ok {
				return nil
			}
			p.ws()
			if !p.eat(':') {
				return nil
			}
			v := p.value()
			if v == nil {
				return nil
			}
			n.Names, n.Elems = append(n.Names, name), append(n.Elems, v)
			n.NameStart = append(n.NameStart, at)
			p.ws()
			if p.eat('}') {
				break
			}
			if !p.eat(',') {
				return nil
			}
		}
	case c == '[':
		p.i++
		p.ws()
		if p.eat(']') {
			break
		}
		for {
			v := p.value()
			if v == nil {
				return nil
			}
			n.Elems = append(n.Elems, v)
			p.ws()
			if p.eat(']') {
				break
			}
			if !p.eat(',') {
				return nil
			}
		}
	case c == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		n.Kind, n.Text = 's', s
	case c == '-' || c >= '0' && c <= '9':
		if !p.num() {
			return nil
		}
		n.Kind, n.Text = 'n', string(p.src[n.Start:p.i])
	default:
		for p.i < len(p.src) && p.src[p.i] >= 'a' && p.src[p.i] <= 'z' {
			p.i++
		}
		switch string(p.src[n.Start:p.i]) {
		case "true":
			n.Kind = 't'
		case "false":
			n.Kind = 'f'
		case "null":
			n.Kind = '0'
		default:
			return nil
		}
	}
	n.End = p.i
	return n
}

func (p *jp) digits() bool {
	k := p.i
	for p.i < len(p.src) && p.src[p.i] >= '0' && p.src[p.i] <= '9' {
		p.i++
	}
	return p.i > k
}

func (p *jp) num() bool {
	p.eat('-')
	if !p.eat('0') {
		if !p.digits() {
			return false
		}
	}
	if p.eat('.') {
		if !p.digits() {
			return false
		}
	}
	if p.eat('e') || p.eat('E') {
		if !p.eat('-') {
			p.eat('+')
		}
		return p.digits()
	}
	return true
}

func (p *jp) str() (string, bool) {
	if !p.eat('"') {
		return "", false
	}
	var out []byte
	for p.i < len(p.src) {
		c := p.src[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out), true
		case c < 32:
			return "", false
		case c == '\\':
			if p.i >= len(p.src) {
				return "", false
			}
			e := p.src[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := rune(0)
				for k := 0; k < 4; k++ {
					if p.i >= len(p.src) {
						return "", false
					}
					h := p.src[p.i]
					p.i++
					switch {
					case h >= '0' && h <= '9':
						r = r<<4 | rune(h-'0')
					case h >= 'a' && h <= 'f':
						r = r<<4 | rune(h-'a'+10)
					case h >= 'A' && h <= 'F':
						r = r<<4 | rune(h-'A'+10)
					default:
						return "", false
					}
				}
				out = append(out, string(r)...)
			default:
				return "", false
			}
		default:
			out = append(out, c)
		}
	}
	return "", false
}
