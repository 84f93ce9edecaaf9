package main

import (
	"math/bits"
	"strconv"
	"strings"
)

// Term is a hash-consed bit-vector or boolean expression. w==0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONeg
	ONot
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OZext
	OSext
	OExtract // k = low bit; w = width
	OTable   // k = table id, a = index (64 bit)
)

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", ONeg: "bvneg", ONot: "bvnot",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite",
}

type varset [3]uint64

func (v *varset) or(o *varset) {
	v[0] |= o[0]
	v[1] |= o[1]
	v[2] |= o[2]
}
func (v *varset) intersects(o *varset) bool {
	return v[0]&o[0] != 0 || v[1]&o[1] != 0 || v[2]&o[2] != 0
}
func (v *varset) has(i int) bool { return v[i>>6]&(1<<(uint(i)&63)) != 0 }

const maxVars = 192

type Term struct {
	op      Op
	w       uint8
	id      uint32
	k       uint64
	a, b, c *Term
	vars    varset
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

type Table struct {
	w    uint8
	vals []uint64
	key  string
}

// TB builds terms; one per worker.
type TB struct {
	intern map[termKey]*Term
	n      uint32
	tables []*Table
	tabIdx map[string]int
	True   *Term
	False  *Term
	vars   []*Term // by variable index
}

func newTB() *TB {
	tb := &TB{intern: map[termKey]*Term{}, tabIdx: map[string]int{}}
	tb.True = tb.raw(OConst, 0, 1, nil, nil, nil)
	tb.False = tb.raw(OConst, 0, 0, nil, nil, nil)
	return tb
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tb *TB) raw(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := tb.intern[key]; ok {
		return t
	}
	tb.n++
	t := &Term{op: op, w: w, id: tb.n, k: k, a: a, b: b, c: c}
	if op == OVar {
		t.vars[k>>6] |= 1 << (k & 63)
	}
	if a != nil {
		t.vars.or(&a.vars)
	}
	if b != nil {
		t.vars.or(&b.vars)
	}
	if c != nil {
		t.vars.or(&c.vars)
	}
	tb.intern[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tb *TB) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v&1 != 0 {
			return tb.True
		}
		return tb.False
	}
	return tb.raw(OConst, w, v&mask(w), nil, nil, nil)
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Var(idx int, w uint8) *Term {
	for len(tb.vars) <= idx {
		tb.vars = append(tb.vars, nil)
	}
	t := tb.raw(OVar, w, uint64(idx), nil, nil, nil)
	tb.vars[idx] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func evalOp(op Op, w uint8, aw uint8, k uint64, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case ONeg:
		return (-a) & m
	case ONot:
		return (^a) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return a ^ 1
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OExtract:
		return (a >> k) & m
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates t under the model (by variable index). memo must be
// cleared between models.
func (tb *TB) Eval(t *Term, model []uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k] & maskB(t.w)
		}
		return 0
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var a, b, c uint64
	a = tb.Eval(t.a, model, memo)
	var r uint64
	switch {
	case t.op == OIte:
		if a != 0 {
			r = tb.Eval(t.b, model, memo)
		} else {
			r = tb.Eval(t.c, model, memo)
		}
	case t.op == OTable:
		tab := tb.tables[t.k]
		if a < uint64(len(tab.vals)) {
			r = tab.vals[a]
		}
	default:
		if t.b != nil {
			b = tb.Eval(t.b, model, memo)
		}
		r = evalOp(t.op, t.w, t.a.w, t.k, a, b, c)
	}
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (tb *TB) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OEq, OUlt, OUle, OSlt, OSle:
			return tb.Bool(evalOp(op, 0, w, 0, a.k, b.k, 0) != 0)
		}
		return tb.Const(evalOp(op, w, w, 0, a.k, b.k, 0), w)
	}
	switch op {
	case OUlt, OUle, OSlt, OSle:
		if r := tb.tabCmp(op, a, b); r != nil {
			return r
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(a.b.k+b.k, w))
			}
		}
	case OSub:
		if a == b {
			return tb.Const(0, w)
		}
		if b.isConst() {
			return tb.Bin(OAdd, a, tb.Const(-b.k, w))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return tb.Bin(OShl, a, tb.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZext && b.k&mask(a.a.w) == b.k {
				return tb.Zext(tb.Bin(OAnd, a.a, tb.Const(b.k, a.a.w)), w)
			}
			if a.op == OZext && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return tb.Const(0, w)
		}
	case OShl, OLshr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tb.Const(0, w)
			}
		}
	case OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	case OEq:
		return tb.Eq(a, b)
	case OUlt:
		if a == b {
			return tb.False
		}
		if b.isConst() && b.k == 0 {
			return tb.False
		}
		if b.isConst() && b.k == 1 {
			return tb.Eq(a, tb.Const(0, w))
		}
		if a.isConst() && a.k == mask(w) {
			return tb.False
		}
		if a.op == OZext && b.isConst() {
			iw := a.a.w
			if b.k > mask(iw) {
				return tb.True
			}
			return tb.Bin(OUlt, a.a, tb.Const(b.k, iw))
		}
		if b.op == OZext && a.isConst() {
			iw := b.a.w
			if a.k >= mask(iw) {
				return tb.False
			}
			return tb.Bin(OUlt, tb.Const(a.k, iw), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tb.Bin(OUlt, a.a, b.a)
		}
	case OUle:
		// a<=b  ==  !(b<a)
		return tb.Not(tb.Bin(OUlt, b, a))
	case OSle:
		return tb.Not(tb.Bin(OSlt, b, a))
	case OSlt:
		if a == b {
			return tb.False
		}
		// zext operands strictly narrower than w are non-negative
		nn := func(t *Term) bool {
			return (t.op == OZext && t.a.w < t.w) || (t.isConst() && sext(t.k, t.w) >= 0)
		}
		if nn(a) && nn(b) {
			return tb.Bin(OUlt, a, b)
		}
		if nn(a) && b.isConst() {
			return tb.False // b negative
		}
		if nn(b) && a.isConst() {
			return tb.True // a negative
		}
	}
	switch op {
	case OEq, OUlt, OSlt:
		return tb.raw(op, 0, 0, a, b, nil)
	}
	return tb.raw(op, w, 0, a, b, nil)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if r := tb.tabCmp(OEq, a, b); r != nil {
			return r
		}
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return tb.Not(a)
		}
	} else if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(b.k, a.a.w))
		case OAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(b.k^a.b.k, a.w))
			}
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				tt, ff := a.b.k == b.k, a.c.k == b.k
				switch {
				case tt && ff:
					return tb.True
				case tt:
					return a.a
				case ff:
					return tb.Not(a.a)
				default:
					return tb.False
				}
			}
			if a.b.isConst() || a.c.isConst() {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OSext:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(b.k, a.a.w))
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tb.Eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.raw(OEq, 0, 0, a, b, nil)
}

func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.raw(OBNot, 0, 0, a, nil, nil)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tb.Not(b) {
		return tb.False
	}
	return tb.raw(OBAnd, 0, 0, a, b, nil)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == tb.Not(b) {
		return tb.True
	}
	return tb.raw(OBOr, 0, 0, a, b, nil)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return c
			}
			return tb.Not(c)
		}
		if a.isConst() {
			if a.k != 0 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if c.op == OBNot {
		return tb.Ite(c.a, b, a)
	}
	return tb.raw(OIte, a.w, 0, c, a, b)
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(a.k, w)
	}
	if a.op == OZext {
		return tb.Zext(a.a, w)
	}
	return tb.raw(OZext, w, 0, a, nil, nil)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OZext && a.a.w < a.w {
		return tb.Zext(a.a, w)
	}
	return tb.raw(OSext, w, 0, a, nil, nil)
}

// Trunc keeps the low w bits.
func (tb *TB) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(a.k, w)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tb.Trunc(a.a, w)
		}
		if a.op == OZext {
			return tb.Zext(a.a, w)
		}
		return tb.Sext(a.a, w)
	case OAnd, OOr, OXor, OAdd, OSub:
		return tb.Bin(a.op, tb.Trunc(a.a, w), tb.Trunc(a.b, w))
	}
	return tb.raw(OExtract, w, 0, a, nil, nil)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.Const(-a.k, a.w)
	}
	return tb.raw(ONeg, a.w, 0, a, nil, nil)
}

func (tb *TB) BVNot(a *Term) *Term {
	if a.isConst() {
		return tb.Const(^a.k, a.w)
	}
	return tb.raw(ONot, a.w, 0, a, nil, nil)
}

// tableOf returns the table a term reads from, if any.
func (tb *TB) tableOf(t *Term) *Table {
	if t.op == OZext {
		t = t.a
	}
	if t.op == OTable {
		return tb.tables[t.k]
	}
	return nil
}

// tabCmp decides a comparison of a table entry with a constant when it is the
// same for all the entries of the table.
func (tb *TB) tabCmp(op Op, a, b *Term) *Term {
	var tab *Table
	switch {
	case b.isConst():
		tab = tb.tableOf(a)
	case a.isConst():
		tab = tb.tableOf(b)
	}
	if tab == nil || len(tab.vals) == 0 {
		return nil
	}
	n := 0
	for _, v := range tab.vals {
		x, y := v, b.k
		if a.isConst() {
			x, y = a.k, v
		}
		if evalOp(op, 0, a.w, 0, x, y, 0) != 0 {
			n++
		}
	}
	switch n {
	case 0:
		return tb.False
	case len(tab.vals):
		return tb.True
	}
	return nil
}

// Select reads vals[idx]; idx is 64 bits wide and assumed in range.
func (tb *TB) Select(vals []uint64, w uint8, idx *Term) *Term {
	if idx.isConst() {
		if idx.k < uint64(len(vals)) {
			return tb.Const(vals[idx.k], w)
		}
		return tb.Const(0, w)
	}
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
			break
		}
	}
	if same && len(vals) > 0 {
		return tb.Const(vals[0], w)
	}
	if tab := tb.tableOf(idx); tab != nil {
		// a table read through another one
		both := make([]uint64, len(tab.vals))
		for i, v := range tab.vals {
			if v < uint64(len(vals)) {
				both[i] = vals[v]
			}
		}
		for idx.op != OTable {
			idx = idx.a
		}
		return tb.Select(both, w, idx.a)
	}
	ident := true
	for i, v := range vals {
		ident = ident && v == uint64(i)
	}
	if ident {
		return tb.Trunc(idx, w)
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(w)))
	for _, v := range vals {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatUint(v, 36))
	}
	key := sb.String()
	ti, ok := tb.tabIdx[key]
	if !ok {
		ti = len(tb.tables)
		tb.tables = append(tb.tables, &Table{w: w, vals: append([]uint64(nil), vals...), key: key})
		tb.tabIdx[key] = ti
	}
	return tb.raw(OTable, w, uint64(ti), idx, nil, nil)
}

// ---- SMT-LIB printing (canonical variable renaming) ----

type smtPrinter struct {
	tb    *TB
	sb    strings.Builder
	names map[*Term]string
	order []int // original var index by canonical index
	nd    int
}

func bvlit(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (p *smtPrinter) name(t *Term) string {
	if t.op == OConst {
		return bvlit(t.k, t.w)
	}
	if n, ok := p.names[t]; ok {
		return n
	}
	if t.op == OVar {
		n := "v" + strconv.Itoa(len(p.order))
		p.order = append(p.order, int(t.k))
		p.sb.WriteString("(declare-const " + n + " " + sortName(t.w) + ")\n")
		p.names[t] = n
		return n
	}
	var body string
	switch t.op {
	case OZext:
		body = "((_ zero_extend " + strconv.Itoa(int(t.w-t.a.w)) + ") " + p.name(t.a) + ")"
	case OSext:
		body = "((_ sign_extend " + strconv.Itoa(int(t.w-t.a.w)) + ") " + p.name(t.a) + ")"
	case OExtract:
		body = "((_ extract " + strconv.Itoa(int(t.k)+int(t.w)-1) + " " + strconv.Itoa(int(t.k)) + ") " + p.name(t.a) + ")"
	case OTable:
		body = p.table(p.tb.tables[t.k], p.name(t.a), 0, len(p.tb.tables[t.k].vals))
	default:
		a := p.name(t.a)
		body = "(" + opNames[t.op] + " " + a
		if t.b != nil {
			body += " " + p.name(t.b)
		}
		if t.c != nil {
			body += " " + p.name(t.c)
		}
		body += ")"
	}
	n := "d" + strconv.Itoa(p.nd)
	p.nd++
	p.sb.WriteString("(define-fun " + n + " () " + sortName(t.w) + " " + body + ")\n")
	p.names[t] = n
	return n
}

func (p *smtPrinter) table(tab *Table, idx string, lo, hi int) string {
	// balanced ite over runs
	same := true
	for i := lo + 1; i < hi; i++ {
		if tab.vals[i] != tab.vals[lo] {
			same = false
			break
		}
	}
	if same {
		return bvlit(tab.vals[lo], tab.w)
	}
	mid := (lo + hi) / 2
	return "(ite (bvult " + idx + " " + bvlit(uint64(mid), 64) + ") " + p.table(tab, idx, lo, mid) + " " + p.table(tab, idx, mid, hi) + ")"
}

// smtText renders the conjunction of cs; returns text (declarations,
// definitions, assertions) and the original variable index for each canonical one.
func (tb *TB) smtText(cs []*Term) (string, []int) {
	p := &smtPrinter{tb: tb, names: map[*Term]string{}}
	for _, c := range cs {
		n := p.name(c)
		p.sb.WriteString("(assert " + n + ")\n")
	}
	return p.sb.String(), p.order
}

// single returns the only variable index in the set, or -1.
func (v *varset) single() int {
	r := -1
	for i, w := range v {
		if w == 0 {
			continue
		}
		if w&(w-1) != 0 || r >= 0 {
			return -1
		}
		r = i*64 + bits.TrailingZeros64(w)
	}
	return r
}
