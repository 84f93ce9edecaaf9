package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

var intTI *TypeInfo

func (m *Machine) throwPlain(msg string) { m.throw(msg) }

func (m *Machine) binop(in *Instr, a, b Value) Value {
	switch in.tok {
	case token.EQL:
		return m.eqVal(in.xty, a, b)
	case token.NEQ:
		v := m.eqVal(in.xty, a, b)
		if t, ok := v.o.(*Term); ok {
			return m.boolVal(m.tb.Not(t))
		}
		return Value{u: v.u ^ 1}
	}
	switch in.xty.kind {
	case KInt:
		return m.intop(in, a, b)
	case KString:
		switch in.tok {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case KFloat:
		x, y := math.Float64frombits(a.u), math.Float64frombits(b.u)
		if a.o != nil || b.o != nil {
			m.unsupported("symbolic float")
		}
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		default:
			m.unsupported("float op")
		}
		if in.xty.w == 32 {
			r = float64(float32(r))
		}
		return Value{u: math.Float64bits(r)}
	case KBool:
		// AND/OR on bools are control flow in Go; only bitwise forms appear in SSA of generics
		x, y := m.toTerm(a, 0), m.toTerm(b, 0)
		switch in.tok {
		case token.AND, token.LAND:
			return m.boolVal(m.tb.And(x, y))
		case token.OR, token.LOR:
			return m.boolVal(m.tb.Or(x, y))
		}
	case KUnsafePtr:
	}
	m.unsupported("binop %s on %s", in.tok, in.xty)
	return Value{}
}

func (m *Machine) intop(in *Instr, a, b Value) Value {
	ti := in.xty
	if a.o == nil && b.o == nil {
		x, y := a.u, b.u
		switch in.tok {
		case token.ADD:
			return canon(x+y, ti)
		case token.SUB:
			return canon(x-y, ti)
		case token.MUL:
			return canon(x*y, ti)
		case token.QUO, token.REM:
			if y == 0 {
				m.throw("integer divide by zero")
			}
			if ti.signed {
				sx, sy := int64(x), int64(y)
				if sy == -1 {
					if in.tok == token.QUO {
						return canon(uint64(-sx), ti)
					}
					return Value{}
				}
				if in.tok == token.QUO {
					return canon(uint64(sx/sy), ti)
				}
				return canon(uint64(sx%sy), ti)
			}
			if in.tok == token.QUO {
				return Value{u: x / y}
			}
			return Value{u: x % y}
		case token.AND:
			return Value{u: x & y}
		case token.OR:
			return Value{u: x | y}
		case token.XOR:
			return canon(x^y, ti)
		case token.AND_NOT:
			return canon(x&^y, ti)
		case token.SHL:
			if in.n&0x100 != 0 && int64(y) < 0 {
				m.throw("negative shift amount")
			}
			if y >= 64 {
				return Value{}
			}
			return canon(x<<y, ti)
		case token.SHR:
			if in.n&0x100 != 0 && int64(y) < 0 {
				m.throw("negative shift amount")
			}
			if ti.signed {
				if y > 63 {
					y = 63
				}
				return Value{u: uint64(int64(x) >> y)}
			}
			if y >= 64 {
				return Value{}
			}
			return Value{u: x >> y}
		case token.LSS:
			if ti.signed {
				return bv(int64(x) < int64(y))
			}
			return bv(x < y)
		case token.LEQ:
			if ti.signed {
				return bv(int64(x) <= int64(y))
			}
			return bv(x <= y)
		case token.GTR:
			if ti.signed {
				return bv(int64(x) > int64(y))
			}
			return bv(x > y)
		case token.GEQ:
			if ti.signed {
				return bv(int64(x) >= int64(y))
			}
			return bv(x >= y)
		}
		m.unsupported("intop %s", in.tok)
	}
	tb := m.tb
	w := ti.w
	if in.tok == token.SHL || in.tok == token.SHR {
		return m.symShift(in, a, b)
	}
	x, y := m.toTerm(a, w), m.toTerm(b, w)
	switch in.tok {
	case token.ADD:
		return m.fromTerm(tb.Bin(OAdd, x, y), ti)
	case token.SUB:
		return m.fromTerm(tb.Bin(OSub, x, y), ti)
	case token.MUL:
		return m.fromTerm(tb.Bin(OMul, x, y), ti)
	case token.QUO, token.REM:
		if m.branch(tb.Eq(y, tb.Const(0, w))) {
			m.throw("integer divide by zero")
		}
		var op Op
		switch {
		case in.tok == token.QUO && ti.signed:
			op = OSDiv
		case in.tok == token.QUO:
			op = OUDiv
		case ti.signed:
			op = OSRem
		default:
			op = OURem
		}
		return m.fromTerm(tb.Bin(op, x, y), ti)
	case token.AND:
		return m.fromTerm(tb.Bin(OAnd, x, y), ti)
	case token.OR:
		return m.fromTerm(tb.Bin(OOr, x, y), ti)
	case token.XOR:
		return m.fromTerm(tb.Bin(OXor, x, y), ti)
	case token.AND_NOT:
		return m.fromTerm(tb.Bin(OAnd, x, tb.BVNot(y)), ti)
	case token.LSS:
		if ti.signed {
			return m.boolVal(tb.Bin(OSlt, x, y))
		}
		return m.boolVal(tb.Bin(OUlt, x, y))
	case token.LEQ:
		if ti.signed {
			return m.boolVal(tb.Bin(OSle, x, y))
		}
		return m.boolVal(tb.Bin(OUle, x, y))
	case token.GTR:
		if ti.signed {
			return m.boolVal(tb.Bin(OSlt, y, x))
		}
		return m.boolVal(tb.Bin(OUlt, y, x))
	case token.GEQ:
		if ti.signed {
			return m.boolVal(tb.Bin(OSle, y, x))
		}
		return m.boolVal(tb.Bin(OUle, y, x))
	}
	m.unsupported("intop %s", in.tok)
	return Value{}
}

func (m *Machine) symShift(in *Instr, a, b Value) Value {
	ti := in.xty
	w := ti.w
	tb := m.tb
	cw := uint8(in.n & 0xff)
	signedCnt := in.n&0x100 != 0
	x := m.toTerm(a, w)
	if b.o == nil {
		if signedCnt && int64(b.u) < 0 {
			m.throw("negative shift amount")
		}
		cnt := b.u
		if cnt >= uint64(w) {
			if in.tok == token.SHR && ti.signed {
				cnt = uint64(w) - 1
			} else {
				return Value{}
			}
		}
		c := tb.Const(cnt, w)
		if in.tok == token.SHL {
			return m.fromTerm(tb.Bin(OShl, x, c), ti)
		}
		if ti.signed {
			return m.fromTerm(tb.Bin(OAshr, x, c), ti)
		}
		return m.fromTerm(tb.Bin(OLshr, x, c), ti)
	}
	y := m.toTerm(b, cw)
	if signedCnt {
		if m.branch(tb.Bin(OSlt, y, tb.Const(0, cw))) {
			m.throw("negative shift amount")
		}
	}
	inr := tb.Bin(OUlt, y, tb.Const(uint64(w), cw))
	if cw < 8 && uint64(w) > mask(cw) {
		inr = tb.True
	}
	var yc *Term
	if cw > w {
		yc = tb.Trunc(y, w)
	} else {
		yc = tb.Zext(y, w)
	}
	var sh, over *Term
	if in.tok == token.SHL {
		sh, over = tb.Bin(OShl, x, yc), tb.Const(0, w)
	} else if ti.signed {
		sh, over = tb.Bin(OAshr, x, yc), tb.Bin(OAshr, x, tb.Const(uint64(w)-1, w))
	} else {
		sh, over = tb.Bin(OLshr, x, yc), tb.Const(0, w)
	}
	return m.fromTerm(tb.Ite(inr, sh, over), ti)
}

func (m *Machine) strEq(a, b Value) Value {
	n := strLen(a)
	if n != strLen(b) {
		return bv(false)
	}
	if n == 0 {
		return bv(true)
	}
	sa, ok1 := a.o.(string)
	sb, ok2 := b.o.(string)
	if ok1 && ok2 {
		return bv(sa == sb)
	}
	return m.boolVal(m.bytesEq(strBytes(a), strBytes(b)))
}

func (m *Machine) bytesEq(x, y []Value) *Term {
	t := m.tb.True
	for i := range x {
		if x[i].o == nil && y[i].o == nil {
			if byte(x[i].u) != byte(y[i].u) {
				return m.tb.False
			}
		}
	}
	for i := range x {
		if x[i].o == nil && y[i].o == nil {
			continue
		}
		t = m.tb.And(t, m.tb.Eq(m.toTerm(x[i], 8), m.toTerm(y[i], 8)))
		if t.isConst() && t.k == 0 {
			return t
		}
	}
	return t
}

func (m *Machine) strLess(a, b Value, orEq bool) Value {
	sa, ok1 := concStr(a)
	sb, ok2 := concStr(b)
	if ok1 && ok2 {
		if orEq {
			return bv(sa <= sb)
		}
		return bv(sa < sb)
	}
	return m.boolVal(m.bytesLess(strBytes(a), strBytes(b), orEq))
}

func (m *Machine) bytesLess(x, y []Value, orEq bool) *Term {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var t *Term
	if orEq {
		t = m.tb.Bool(len(x) <= len(y))
	} else {
		t = m.tb.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.toTerm(x[i], 8), m.toTerm(y[i], 8)
		t = m.tb.Ite(m.tb.Eq(p, q), t, m.tb.Bin(OUlt, p, q))
	}
	return t
}

// eqVal compares two values of static type ti.
func (m *Machine) eqVal(ti *TypeInfo, a, b Value) Value {
	switch ti.kind {
	case KInt, KBool:
		if a.o == nil && b.o == nil {
			return bv(a.u == b.u)
		}
		return m.boolVal(m.tb.Eq(m.toTerm(a, ti.w), m.toTerm(b, ti.w)))
	case KFloat:
		if a.o != nil || b.o != nil {
			m.unsupported("symbolic float eq")
		}
		return bv(math.Float64frombits(a.u) == math.Float64frombits(b.u))
	case KString:
		return m.strEq(a, b)
	case KPtr, KUnsafePtr, KChan:
		if sp, ok := a.o.(*SymPtr); ok {
			i := m.concretize(sp.idx)
			a = Value{o: sp.a, u: uint64(sp.off) + i}
		}
		if sp, ok := b.o.(*SymPtr); ok {
			i := m.concretize(sp.idx)
			b = Value{o: sp.a, u: uint64(sp.off) + i}
		}
		return bv(a.o == b.o && (a.o == nil || a.u == b.u))
	case KIface:
		if a.o == nil || b.o == nil {
			return bv(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Iface), b.o.(*Iface)
		if x.t != y.t {
			return bv(false)
		}
		if !comparableT(x.t) {
			m.throw("comparing uncomparable type " + x.t.str)
		}
		return m.eqVal(x.t, x.v, y.v)
	case KStruct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tb.True
		for i, f := range ti.fields {
			v := m.eqVal(f, x.e[i], y.e[i])
			t = m.tb.And(t, m.toTerm(v, 0))
			if t.isConst() && t.k == 0 {
				break
			}
		}
		return m.boolVal(t)
	case KArray:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tb.True
		for i := range x.e {
			v := m.eqVal(ti.elem, x.e[i], y.e[i])
			t = m.tb.And(t, m.toTerm(v, 0))
			if t.isConst() && t.k == 0 {
				break
			}
		}
		return m.boolVal(t)
	case KSlice, KMap, KFunc:
		// only comparison with nil
		return bv(a.o == nil && b.o == nil)
	}
	m.unsupported("eq on %s", ti)
	return Value{}
}

func comparableT(t *TypeInfo) bool {
	switch t.kind {
	case KSlice, KMap, KFunc:
		return false
	case KArray:
		return comparableT(t.elem)
	case KStruct:
		for _, f := range t.fields {
			if !comparableT(f) {
				return false
			}
		}
	}
	return true
}

// ---- conversion ----

func (m *Machine) convert(v Value, from, to *TypeInfo) Value {
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			if t, ok := v.o.(*Term); ok {
				switch {
				case to.w < t.w:
					return m.fromTerm(m.tb.Trunc(t, to.w), to)
				case to.w > t.w:
					if from.signed {
						return m.fromTerm(m.tb.Sext(t, to.w), to)
					}
					return m.fromTerm(m.tb.Zext(t, to.w), to)
				}
				return v
			}
			return canon(v.u, to)
		case KFloat:
			f := math.Float64frombits(v.u)
			if to.signed {
				return canon(uint64(int64(f)), to)
			}
			return canon(uint64(f), to)
		case KUnsafePtr:
			m.unsupported("unsafe pointer to int")
		}
	case KFloat:
		switch from.kind {
		case KInt:
			v = m.concInt(v, from)
			var f float64
			if from.signed {
				f = float64(int64(v.u))
			} else {
				f = float64(v.u)
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return Value{u: math.Float64bits(f)}
		case KFloat:
			if to.w == 32 {
				return Value{u: math.Float64bits(float64(float32(math.Float64frombits(v.u))))}
			}
			return v
		}
	case KString:
		switch from.kind {
		case KString:
			return v
		case KInt:
			if t, ok := v.o.(*Term); ok {
				if from.w > 32 {
					return strVal(string(rune(m.concretize(t))))
				}
				return mkStr(m.encodeRune(m.convertTo32(t, from)))
			}
			if from.signed && (int64(v.u) < 0 || int64(v.u) > utf8.MaxRune) || v.u > utf8.MaxRune {
				return strVal("�")
			}
			return strVal(string(rune(v.u)))
		case KSlice:
			s, _ := v.o.(*Slice)
			if s == nil || s.len == 0 {
				return Value{}
			}
			if from.elem.w == 8 {
				return mkStr(m.sliceVals(s))
			}
			var out []Value
			for _, r := range m.sliceVals(s) {
				if t, ok := r.o.(*Term); ok {
					out = append(out, m.encodeRune(t)...)
				} else {
					out = append(out, strBytes(strVal(string(rune(int32(r.u)))))...)
				}
			}
			return mkStr(out)
		}
	case KSlice:
		if from.kind == KString {
			if to.elem.w == 8 {
				b := strBytes(v)
				a := &Agg{e: make([]Value, len(b)), epoch: m.epoch, elem: to.elem}
				copy(a.e, b)
				return Value{o: &Slice{a: a, len: len(b), cap: len(b)}}
			}
			var rs []Value
			b := strBytes(v)
			for i := 0; i < len(b); {
				r, n := m.decodeRune(b[i:])
				rs = append(rs, r)
				i += n
			}
			return Value{o: &Slice{a: &Agg{e: rs, epoch: m.epoch, elem: to.elem}, len: len(rs), cap: len(rs)}}
		}
		return v
	case KPtr, KUnsafePtr:
		if from.kind == KInt && v.u == 0 && v.o == nil {
			return Value{}
		}
		return v
	}
	if from.kind == to.kind {
		return v
	}
	m.unsupported("convert %s to %s", from, to)
	return Value{}
}

func (m *Machine) convertTo32(t *Term, from *TypeInfo) *Term {
	if t.w == 32 {
		return t
	}
	if from.signed {
		return m.tb.Sext(t, 32)
	}
	return m.tb.Zext(t, 32)
}

// encodeRune produces the UTF-8 bytes of a symbolic 32-bit rune (forks on length).
func (m *Machine) encodeRune(r *Term) []Value {
	tb := m.tb
	k := func(v uint64) *Term { return tb.Const(v, 32) }
	b8 := func(t *Term) Value {
		x := tb.Trunc(t, 8)
		if x.isConst() {
			return Value{u: x.k}
		}
		return Value{o: x}
	}
	sh := func(n uint64) *Term { return tb.Bin(OLshr, r, k(n)) }
	cont := func(n uint64) Value {
		return b8(tb.Bin(OOr, k(0x80), tb.Bin(OAnd, sh(n), k(0x3f))))
	}
	if m.branch(tb.Bin(OUlt, r, k(0x80))) {
		return []Value{b8(r)}
	}
	if m.branch(tb.Bin(OUlt, r, k(0x800))) {
		return []Value{b8(tb.Bin(OOr, k(0xC0), sh(6))), cont(0)}
	}
	bad := tb.Or(tb.Bin(OUlt, k(0x10FFFF), r), tb.And(tb.Bin(OUle, k(0xD800), r), tb.Bin(OUle, r, k(0xDFFF))))
	if m.branch(bad) {
		return []Value{{u: 0xEF}, {u: 0xBF}, {u: 0xBD}}
	}
	if m.branch(tb.Bin(OUlt, r, k(0x10000))) {
		return []Value{b8(tb.Bin(OOr, k(0xE0), sh(12))), cont(6), cont(0)}
	}
	return []Value{b8(tb.Bin(OOr, k(0xF0), sh(18))), cont(12), cont(6), cont(0)}
}

// decodeRune decodes the first rune of b following utf8.DecodeRune semantics.
func (m *Machine) decodeRune(b []Value) (Value, int) {
	if len(b) == 0 {
		return Value{u: uint64(utf8.RuneError)}, 0
	}
	n := len(b)
	if n > 4 {
		n = 4
	}
	sym := false
	for i := 0; i < n; i++ {
		if b[i].o != nil {
			sym = true
		}
	}
	if b[0].o == nil && b[0].u < 0x80 {
		return Value{u: b[0].u}, 1
	}
	if !sym {
		var buf [4]byte
		for i := 0; i < n; i++ {
			buf[i] = byte(b[i].u)
		}
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{u: uint64(int64(r))}, sz
	}
	tb := m.tb
	c := func(i int) *Term { return m.toTerm(b[i], 8) }
	k8 := func(v uint64) *Term { return tb.Const(v, 8) }
	in := func(t *Term, lo, hi uint64) *Term {
		return tb.And(tb.Bin(OUle, k8(lo), t), tb.Bin(OUle, t, k8(hi)))
	}
	bad := func() (Value, int) { return Value{u: uint64(utf8.RuneError)}, 1 }
	z := func(t *Term, msk uint64, sh uint64) *Term {
		return tb.Bin(OShl, tb.Zext(tb.Bin(OAnd, t, k8(msk)), 32), tb.Const(sh, 32))
	}
	ret := func(t *Term, n int) (Value, int) {
		if t.isConst() {
			return Value{u: t.k}, n
		}
		return Value{o: t}, n
	}
	b0 := c(0)
	if m.branch(tb.Bin(OUlt, b0, k8(0x80))) {
		return ret(tb.Zext(b0, 32), 1)
	}
	if m.branch(in(b0, 0xC2, 0xDF)) {
		if n < 2 || !m.branch(in(c(1), 0x80, 0xBF)) {
			return bad()
		}
		return ret(tb.Bin(OOr, z(b0, 0x1f, 6), z(c(1), 0x3f, 0)), 2)
	}
	if m.branch(in(b0, 0xE0, 0xEF)) {
		if n < 2 {
			return bad()
		}
		ok1 := tb.Or(tb.And(tb.Eq(b0, k8(0xE0)), in(c(1), 0xA0, 0xBF)),
			tb.Or(tb.And(tb.Eq(b0, k8(0xED)), in(c(1), 0x80, 0x9F)),
				tb.And(tb.And(tb.Not(tb.Eq(b0, k8(0xE0))), tb.Not(tb.Eq(b0, k8(0xED)))), in(c(1), 0x80, 0xBF))))
		if n < 3 {
			return bad()
		}
		if !m.branch(tb.And(ok1, in(c(2), 0x80, 0xBF))) {
			return bad()
		}
		return ret(tb.Bin(OOr, z(b0, 0x0f, 12), tb.Bin(OOr, z(c(1), 0x3f, 6), z(c(2), 0x3f, 0))), 3)
	}
	if m.branch(in(b0, 0xF0, 0xF4)) {
		if n < 4 {
			return bad()
		}
		ok1 := tb.Or(tb.And(tb.Eq(b0, k8(0xF0)), in(c(1), 0x90, 0xBF)),
			tb.Or(tb.And(tb.Eq(b0, k8(0xF4)), in(c(1), 0x80, 0x8F)),
				tb.And(in(b0, 0xF1, 0xF3), in(c(1), 0x80, 0xBF))))
		if !m.branch(tb.And(ok1, tb.And(in(c(2), 0x80, 0xBF), in(c(3), 0x80, 0xBF)))) {
			return bad()
		}
		return ret(tb.Bin(OOr, tb.Bin(OOr, z(b0, 0x07, 18), z(c(1), 0x3f, 12)), tb.Bin(OOr, z(c(2), 0x3f, 6), z(c(3), 0x3f, 0))), 4)
	}
	return bad()
}

// ---- indexing ----

func (m *Machine) lenForIndex(in *Instr, x Value) int {
	switch in.xty.kind {
	case KSlice:
		s, _ := x.o.(*Slice)
		if s == nil {
			return 0
		}
		return s.len
	case KPtr:
		if x.o == nil {
			return -1
		}
		return in.xty.elem.n
	}
	return -1
}

// idx64 extends an index value to 64 bits.
func (m *Machine) idx64(v Value, info int) (uint64, *Term) {
	t, ok := v.o.(*Term)
	if !ok {
		return v.u, nil
	}
	if t.w == 64 {
		return 0, t
	}
	if info&0x100 != 0 {
		return 0, m.tb.Sext(t, 64)
	}
	return 0, m.tb.Zext(t, 64)
}

func (m *Machine) boundsCheck(i uint64, t *Term, n int) {
	if t == nil {
		if i >= uint64(n) {
			m.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return
	}
	if !m.branch(m.tb.Bin(OUlt, t, m.tb.Const(uint64(n), 64))) {
		m.throw(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) indexAddr(fr *Frame, in *Instr, x, iv Value) Value {
	i, t := m.idx64(iv, in.n)
	var a *Agg
	var off, n int
	switch in.xty.kind {
	case KSlice:
		s, _ := x.o.(*Slice)
		if s == nil {
			m.boundsCheck(i, t, 0)
		}
		a, off, n = s.a, s.off, s.len
	case KPtr:
		switch y := x.o.(type) {
		case nil:
			m.throw("invalid memory address or nil pointer dereference")
		case *Agg:
			a = y
			if x.u != WHOLE {
				if nested, ok := y.e[x.u].o.(*Agg); ok && in.xty.elem.hasAgg {
					a = nested
				}
			}
		default:
			m.unsupported("indexaddr %T", x.o)
		}
		n = in.xty.elem.n
		if n > len(a.e) {
			m.unsupported("indexaddr layout")
		}
	default:
		m.unsupported("indexaddr on %s", in.xty)
	}
	m.boundsCheck(i, t, n)
	if t != nil && !t.isConst() {
		if in.commaOk {
			i = m.concretize(t)
		} else {
			return Value{o: &SymPtr{a: a, off: off, n: n, idx: t}}
		}
	} else if t != nil {
		i = t.k
	}
	if in.commaOk {
		return Value{o: a.e[off+int(i)].o, u: WHOLE}
	}
	return Value{o: a, u: uint64(off) + i}
}

func (m *Machine) index(in *Instr, x, iv Value) Value {
	i, t := m.idx64(iv, in.n)
	switch in.xty.kind {
	case KArray:
		a := x.o.(*Agg)
		m.boundsCheck(i, t, len(a.e))
		if t != nil && !t.isConst() {
			return m.selectElem(a.e, t, in.ty)
		}
		return a.e[i]
	case KString:
		return m.strIndex(x, i, t, in.ty)
	case KSlice:
		s, _ := x.o.(*Slice)
		n := 0
		if s != nil {
			n = s.len
		}
		m.boundsCheck(i, t, n)
		if t != nil && !t.isConst() {
			return m.selectElem(s.a.e[s.off:s.off+s.len], t, in.ty)
		}
		return s.a.e[s.off+int(i)]
	}
	m.unsupported("index on %s", in.xty)
	return Value{}
}

func (m *Machine) strIndex(x Value, i uint64, t *Term, ti *TypeInfo) Value {
	n := strLen(x)
	m.boundsCheck(i, t, n)
	if t != nil && !t.isConst() {
		return m.selectElem(strBytes(x), t, ti)
	}
	return strAt(x, int(i))
}

func (m *Machine) lookup(in *Instr, x, k Value) Value {
	if in.xty.kind == KString {
		i, t := m.idx64(k, in.n)
		return m.strIndex(x, i, t, in.ty)
	}
	vt := in.xty.elem
	var v Value
	found := false
	if x.o != nil {
		mo := x.o.(*MapObj)
		if e := m.mapFind(mo, k); e >= 0 {
			v = mo.ents[e].v
			found = true
		}
	} else if in.xty.key.kind == KIface && k.o != nil {
		if !comparableT(k.o.(*Iface).t) {
			m.throw("hash of unhashable type " + k.o.(*Iface).t.str)
		}
	}
	if !found {
		v = m.zero(vt)
	} else if vt.hasAgg {
		v = Value{o: m.copyAgg(v.o.(*Agg))}
	}
	if in.commaOk {
		return Value{o: []Value{v, bv(found)}}
	}
	return v
}

// ---- slicing ----

func (m *Machine) optInt(fr *Frame, r int32, def int) int {
	if r == noReg {
		return def
	}
	v := m.get(fr, r)
	v = m.concInt(v, intTI)
	return int(int64(v.u))
}

func (m *Machine) slice(fr *Frame, in *Instr) Value {
	x := m.get(fr, in.a)
	if in.xty.kind == KString {
		n := strLen(x)
		lo := m.optInt(fr, in.b, 0)
		hi := m.optInt(fr, in.c, n)
		if lo < 0 || hi < lo || hi > n {
			m.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSub(x, lo, hi)
	}
	var a *Agg
	var off, ln, cp int
	switch in.xty.kind {
	case KSlice:
		s, _ := x.o.(*Slice)
		if s == nil {
			lo := m.optInt(fr, in.b, 0)
			hi := m.optInt(fr, in.c, 0)
			mx := m.optInt(fr, in.d, 0)
			if lo != 0 || hi != 0 || mx != 0 {
				m.throw("slice bounds out of range (nil slice)")
			}
			return Value{}
		}
		a, off, ln, cp = s.a, s.off, s.len, s.cap
	case KPtr:
		y, ok := x.o.(*Agg)
		if !ok {
			if x.o == nil {
				m.throw("invalid memory address or nil pointer dereference")
			}
			m.unsupported("slice of %T", x.o)
		}
		if x.u != WHOLE {
			if nested, ok := y.e[x.u].o.(*Agg); ok {
				y = nested
			}
		}
		a, off = y, 0
		ln = in.xty.elem.n
		cp = ln
	default:
		m.unsupported("slice of %s", in.xty)
	}
	lo := m.optInt(fr, in.b, 0)
	hi := m.optInt(fr, in.c, ln)
	mx := m.optInt(fr, in.d, cp)
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		m.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp))
	}
	return Value{o: &Slice{a: a, off: off + lo, len: hi - lo, cap: mx - lo}}
}

// ---- type assertions ----

func (m *Machine) typeAssert(in *Instr, x Value) Value {
	ti := in.xty
	ifc, _ := x.o.(*Iface)
	ok := false
	var v Value
	if ifc != nil {
		if ti.kind == KIface {
			if m.p.implements(ifc.t, ti) {
				ok = true
				v = x
			}
		} else if ifc.t == ti {
			ok = true
			v = ifc.v
		}
	}
	if in.commaOk {
		if !ok {
			v = m.zero(ti)
		}
		return Value{o: []Value{v, bv(ok)}}
	}
	if !ok {
		d := "nil"
		if ifc != nil {
			d = ifc.t.str
		}
		m.throw(fmt.Sprintf("interface conversion: interface is %s, not %s", d, ti))
	}
	return v
}

// ---- maps ----

type pairKey struct{ a, b any }
type ptrKey struct {
	o any
	u uint64
}

// keyOf returns a Go-comparable key or ok=false when symbolic.
func (m *Machine) keyOf(ti *TypeInfo, v Value) (any, bool) {
	switch ti.kind {
	case KInt, KBool, KFloat:
		if v.o != nil {
			return nil, false
		}
		return v.u, true
	case KString:
		s, ok := concStr(v)
		return s, ok
	case KPtr, KUnsafePtr, KChan:
		if v.o == nil {
			return ptrKey{}, true
		}
		if sp, ok := v.o.(*SymPtr); ok {
			i := m.concretize(sp.idx)
			return ptrKey{sp.a, uint64(sp.off) + i}, true
		}
		return ptrKey{v.o, v.u}, true
	case KIface:
		if v.o == nil {
			return ptrKey{}, true
		}
		ifc := v.o.(*Iface)
		if !comparableT(ifc.t) {
			m.throw("hash of unhashable type " + ifc.t.str)
		}
		k, ok := m.keyOf(ifc.t, ifc.v)
		return pairKey{ifc.t, k}, ok
	case KStruct:
		a := v.o.(*Agg)
		var r any
		for i, f := range ti.fields {
			k, ok := m.keyOf(f, a.e[i])
			if !ok {
				return nil, false
			}
			r = pairKey{r, k}
		}
		return r, true
	case KArray:
		a := v.o.(*Agg)
		var r any
		for i := range a.e {
			k, ok := m.keyOf(ti.elem, a.e[i])
			if !ok {
				return nil, false
			}
			r = pairKey{r, k}
		}
		return r, true
	}
	m.unsupported("map key %s", ti)
	return nil, false
}

func (m *Machine) newMap(ti *TypeInfo) *MapObj {
	return &MapObj{idx: map[any]int{}, kt: ti.key, vt: ti.elem, epoch: m.epoch}
}

// mapFind returns the entry index or -1 (forks when symbolic keys are involved).
func (m *Machine) mapFind(mo *MapObj, k Value) int {
	key, conc := m.keyOf(mo.kt, k)
	if conc {
		if e, ok := mo.idx[key]; ok {
			return e
		}
		if mo.nsym == 0 {
			return -1
		}
	}
	for i := range mo.ents {
		e := &mo.ents[i]
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := m.keyOf(mo.kt, e.k); c2 {
				continue
			}
		}
		if m.concBool(m.eqVal(mo.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	if mo.frozen {
		m.ex.violation(m, "frozen", "write to frozen map at "+m.where())
		panic(engineAbort{abAssume, "frozen map"})
	}
	e := m.mapFind(mo, k)
	if mo.vt.hasAgg {
		v = Value{o: m.copyAgg(v.o.(*Agg))}
	}
	if e >= 0 {
		m.undo = append(m.undo, undoEnt{kind: uMapSet, m: mo, i: e, old: mo.ents[e].v})
		mo.ents[e].v = v
		return
	}
	key, conc := m.keyOf(mo.kt, k)
	if mo.kt.hasAgg {
		k = Value{o: m.copyAgg(k.o.(*Agg))}
	}
	mo.ents = append(mo.ents, mapEnt{k: k, v: v})
	mo.live++
	if conc {
		mo.idx[key] = len(mo.ents) - 1
		m.undo = append(m.undo, undoEnt{kind: uMapIns, m: mo, key: key})
	} else {
		mo.nsym++
		m.undo = append(m.undo, undoEnt{kind: uMapIns, m: mo})
	}
}

func (m *Machine) mapUndoInsert(mo *MapObj, key any) {
	mo.ents = mo.ents[:len(mo.ents)-1]
	mo.live--
	if key != nil {
		delete(mo.idx, key)
	} else {
		mo.nsym--
	}
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	if mo.frozen {
		m.ex.violation(m, "frozen", "delete from frozen map at "+m.where())
		panic(engineAbort{abAssume, "frozen map"})
	}
	e := m.mapFind(mo, k)
	if e < 0 {
		return
	}
	m.mapKill(mo, e)
}

func (m *Machine) mapKill(mo *MapObj, e int) {
	key, conc := m.keyOf(mo.kt, mo.ents[e].k)
	if !conc {
		key = nil
		mo.nsym--
	} else {
		delete(mo.idx, key)
	}
	mo.ents[e].dead = true
	mo.live--
	m.undo = append(m.undo, undoEnt{kind: uMapDel, m: mo, i: e, key: key})
}

// ---- range ----

func (m *Machine) rangeInit(in *Instr, x Value) Value {
	pos := &Agg{e: make([]Value, 1), epoch: m.epoch}
	if in.xty.kind == KString {
		it := &strIterT{b: strBytes(x), pos: pos}
		return Value{o: it}
	}
	it := &mapIterT{pos: pos}
	if x.o != nil {
		it.m = x.o.(*MapObj)
		switch m.mapOrder {
		case 0:
		case 1: // reverse of current contents
			it.rev = true
			it.n = len(it.m.ents)
		default: // rotate by mapOrder-1
			it.rot = m.mapOrder - 1
			it.n = len(it.m.ents)
		}
	}
	return Value{o: it}
}

type strIterT struct {
	b   []Value
	pos *Agg
}
type mapIterT struct {
	m   *MapObj
	pos *Agg
	rev bool
	rot int
	n   int
}

func (m *Machine) next(in *Instr, x Value) Value {
	switch it := x.o.(type) {
	case *strIterT:
		p := int(it.pos.e[0].u)
		if p >= len(it.b) {
			return Value{o: []Value{bv(false), {}, {}}}
		}
		r, n := m.decodeRune(it.b[p:])
		m.setElem(it.pos, 0, Value{u: uint64(p + n)})
		return Value{o: []Value{bv(true), {u: uint64(p)}, r}}
	case *mapIterT:
		kt, vt := in.ty.fields[1], in.ty.fields[2]
		if it.m != nil {
			p := int(it.pos.e[0].u)
			for ; p < len(it.m.ents); p++ {
				i := p
				if p < it.n {
					if it.rev {
						i = it.n - 1 - p
					} else if it.rot > 0 {
						i = (p + it.rot) % it.n
					}
				}
				e := &it.m.ents[i]
				if e.dead {
					continue
				}
				m.setElem(it.pos, 0, Value{u: uint64(p + 1)})
				k, v := e.k, e.v
				if kt.kind != KInvalid && kt.hasAgg {
					k = m.copyVal(k, kt)
				}
				if vt.kind != KInvalid && vt.hasAgg {
					v = m.copyVal(v, vt)
				}
				return Value{o: []Value{bv(true), k, v}}
			}
			m.setElem(it.pos, 0, Value{u: uint64(p)})
		}
		return Value{o: []Value{bv(false), {}, {}}}
	}
	m.unsupported("next on %T", x.o)
	return Value{}
}

// ---- builtins ----

func (m *Machine) builtin(fr *Frame, in *Instr, args []Value) Value {
	switch in.bname {
	case "len":
		switch in.xty.kind {
		case KString:
			return Value{u: uint64(strLen(args[0]))}
		case KSlice:
			if s, ok := args[0].o.(*Slice); ok {
				return Value{u: uint64(s.len)}
			}
			return Value{}
		case KMap:
			if mo, ok := args[0].o.(*MapObj); ok {
				return Value{u: uint64(mo.live)}
			}
			return Value{}
		case KArray:
			return Value{u: uint64(in.xty.n)}
		case KPtr:
			return Value{u: uint64(in.xty.elem.n)}
		}
	case "cap":
		switch in.xty.kind {
		case KSlice:
			if s, ok := args[0].o.(*Slice); ok {
				return Value{u: uint64(s.cap)}
			}
			return Value{}
		case KArray:
			return Value{u: uint64(in.xty.n)}
		case KPtr:
			return Value{u: uint64(in.xty.elem.n)}
		}
	case "append":
		return m.appendVals(in.xty, args[0], args[1])
	case "copy":
		dst, _ := args[0].o.(*Slice)
		if dst == nil {
			return Value{}
		}
		var src []Value
		if s, ok := args[1].o.(*Slice); ok {
			src = s.a.e[s.off : s.off+s.len]
		} else {
			src = strBytes(args[1])
		}
		n := len(src)
		if dst.len < n {
			n = dst.len
		}
		tmp := make([]Value, n)
		copy(tmp, src)
		for i := 0; i < n; i++ {
			if in.xty.elem.hasAgg {
				m.storeAgg(dst.a.e[dst.off+i].o.(*Agg), m.copyAgg(tmp[i].o.(*Agg)))
			} else {
				m.setElem(dst.a, dst.off+i, tmp[i])
			}
		}
		return Value{u: uint64(n)}
	case "delete":
		if mo, ok := args[0].o.(*MapObj); ok {
			m.mapDelete(mo, args[1])
		}
		return Value{}
	case "clear":
		switch x := args[0].o.(type) {
		case *MapObj:
			for i := range x.ents {
				if !x.ents[i].dead {
					m.mapKill(x, i)
				}
			}
		case *Slice:
			for i := 0; i < x.len; i++ {
				if in.xty.elem.hasAgg {
					m.storeAgg(x.a.e[x.off+i].o.(*Agg), m.zero(in.xty.elem).o.(*Agg))
				} else {
					m.setElem(x.a, x.off+i, Value{})
				}
			}
		}
		return Value{}
	case "recover":
		// valid only in a deferred call's frame while the parent panics
		if m.top.isDefer && m.top.parent != nil && m.top.parent.pnc != nil && !m.top.parent.pnc.recovered {
			par := m.top.parent
			if par.shared {
				n := *par
				n.regs = append([]Value(nil), par.regs...)
				n.shared = false
				par = &n
				t := m.private()
				t.parent = par
			}
			p := *par.pnc
			p.recovered = true
			par.pnc = &p
			return p.val
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			r = m.minmax(in, r, b)
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			m.throw("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(m.concInt(args[1], intTI).u)
		if n == 0 {
			return Value{}
		}
		a, off := ptrElems(args[0])
		b := make([]Value, n)
		copy(b, a.e[off:off+n])
		return mkStr(b)
	case "StringData":
		b := strBytes(args[0])
		a := &Agg{e: append([]Value(nil), b...), epoch: m.epoch, elem: in.ty.elem}
		return Value{o: a}
	case "SliceData":
		s, _ := args[0].o.(*Slice)
		if s == nil {
			return Value{}
		}
		if in.xty.elem.hasAgg {
			if s.cap == 0 {
				return Value{o: m.zero(in.xty.elem).o, u: WHOLE}
			}
			return Value{o: s.a.e[s.off].o, u: WHOLE}
		}
		return Value{o: s.a, u: uint64(s.off)}
	case "Slice":
		n := int(m.concInt(args[1], intTI).u)
		if args[0].o == nil {
			return Value{}
		}
		a, off := ptrElems(args[0])
		return Value{o: &Slice{a: a, off: off, len: n, cap: n}}
	case "close":
		return Value{}
	case "Sizeof":
		if in.xty.size > 0 {
			return Value{u: uint64(in.xty.size)}
		}
	case "real":
		return Value{u: math.Float64bits(real(args[0].o.(complex128)))}
	case "imag":
		return Value{u: math.Float64bits(imag(args[0].o.(complex128)))}
	}
	m.unsupported("builtin %s", in.bname)
	return Value{}
}

func ptrElems(p Value) (*Agg, int) {
	a := p.o.(*Agg)
	if p.u == WHOLE {
		return a, 0
	}
	return a, int(p.u)
}

func (m *Machine) minmax(in *Instr, a, b Value) Value {
	ti := in.ty
	if ti.kind == KInt {
		tok := token.LSS
		lt := m.intop(&Instr{tok: tok, xty: ti}, a, b)
		if t, ok := lt.o.(*Term); ok {
			x, y := m.toTerm(a, ti.w), m.toTerm(b, ti.w)
			if in.bname == "max" {
				x, y = y, x
			}
			return m.fromTerm(m.tb.Ite(t, x, y), ti)
		}
		if (lt.u != 0) == (in.bname == "min") {
			return a
		}
		return b
	}
	if ti.kind == KFloat {
		x, y := math.Float64frombits(a.u), math.Float64frombits(b.u)
		if in.bname == "min" {
			return Value{u: math.Float64bits(math.Min(x, y))}
		}
		return Value{u: math.Float64bits(math.Max(x, y))}
	}
	if ti.kind == KString {
		if m.concBool(m.strLess(a, b, false)) == (in.bname == "min") {
			return a
		}
		return b
	}
	m.unsupported("minmax")
	return Value{}
}

func (m *Machine) appendVals(st *TypeInfo, sv, av Value) Value {
	el := st.elem
	s, _ := sv.o.(*Slice)
	var src []Value
	switch x := av.o.(type) {
	case *Slice:
		src = x.a.e[x.off : x.off+x.len]
	case nil:
	default:
		src = strBytes(av)
	}
	if len(src) == 0 {
		return sv
	}
	var ln, cp int
	if s != nil {
		ln, cp = s.len, s.cap
	}
	need := ln + len(src)
	if need <= cp {
		tmp := src
		if el.hasAgg {
			for i, v := range tmp {
				m.storeAgg(s.a.e[s.off+ln+i].o.(*Agg), m.copyAgg(v.o.(*Agg)))
			}
		} else {
			if av.o == sv.o || true {
				tmp = append([]Value(nil), src...)
			}
			for i, v := range tmp {
				m.setElem(s.a, s.off+ln+i, v)
			}
		}
		return Value{o: &Slice{a: s.a, off: s.off, len: need, cap: cp}}
	}
	nc := growCap(cp, need, el.size)
	a := &Agg{e: make([]Value, nc), epoch: m.epoch, elem: el}
	if s != nil {
		copy(a.e, s.a.e[s.off:s.off+ln])
		if el.hasAgg {
			for i := 0; i < ln; i++ {
				a.e[i].o = m.copyAgg(a.e[i].o.(*Agg))
			}
		}
	}
	copy(a.e[ln:], src)
	if el.hasAgg {
		for i := ln; i < need; i++ {
			a.e[i].o = m.copyAgg(a.e[i].o.(*Agg))
		}
		for i := need; i < nc; i++ {
			a.e[i] = m.zero(el)
		}
	}
	return Value{o: &Slice{a: a, len: need, cap: nc}}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors the gc runtime's slice growth (without malloc headers).
func growCap(oldCap, need int, size int64) int {
	nc := oldCap
	double := nc + nc
	if need > double {
		nc = need
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if size == 0 {
		return need
	}
	bytes := int64(nc) * size
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return int(c / size)
			}
		}
	}
	p := int64(8192)
	bytes = (bytes + p - 1) / p * p
	return int(bytes / size)
}
