package main

import (
	"fmt"
	"go/token"
	"math"
	"strings"
	"sync/atomic"
)

type Frame struct {
	fn      *Func
	regs    []Value
	pc      int32
	dst     int32
	shared  bool
	isDefer bool // this frame is a deferred call of parent
	isInit  bool
	parent  *Frame
	defers  *deferNode
	pnc     *Panic
	post    func(m *Machine, v Value) Value // transforms the result (intrinsic continuations)
}

type deferNode struct {
	next *deferNode
	fn   Value // closure / func
	f    *Func // static
	args []Value
	bi   *Instr // builtin
}

type Panic struct {
	val       Value // interface value
	recovered bool
	rt        string
	stack     string
}

// Dec is one recorded decision.
type Dec struct {
	b bool
	v uint64
}

type undoEnt struct {
	a    *Agg
	i    int
	old  Value
	m    *MapObj
	kind uint8
	key  any
}

const (
	uAgg uint8 = iota
	uMapIns
	uMapSet
	uMapDel
	uFreezeA
	uFreezeM
	uMapClear
)

type pending struct {
	top      *Frame
	pcLen    int
	cond     *Term
	decs     []Dec
	undoLen  int
	model    []uint64
	traceLen int
	alt      Dec
	nvars    int
	steps    int64
	obsLen   int
	varLen   int
	fixed    varset
	depth    int
	mapOrder int
	knownLen int
}

type Machine struct {
	p        *Program
	tb       *TB
	solver   *Solver
	globals  []*Agg
	top      *Frame
	epoch    uint32
	undo     []undoEnt
	pend     []*pending
	pc       []*Term
	known    map[*Term]bool
	knownLog []*Term
	model    []uint64
	memo     map[*Term]uint64
	fixed    varset

	decs    []Dec // decisions taken in the current instruction
	queue   []Dec // decisions to replay in the current instruction
	qi      int
	trace   []Dec
	prefix  []Dec // job prefix to follow
	pi      int
	curPC   int32
	curTop  *Frame
	curUndo int
	curNV   int

	nvars        int
	varW         []uint8 // widths of variables on current path
	steps        int64
	maxSteps     int64
	depth        int
	maxDepth     int
	total        int64
	initMode     bool
	done         bool
	mapOrder     int
	mapOrderUsed bool
	ex           *Explorer
	sliceBuf     []*Term
	sliceMark    []bool
	job          *Job
	native       map[string]any
	rtErrT       *TypeInfo
	strT         *TypeInfo
	hits         map[*Func]int64
	lastWhy      string
	steppedSince int64
	curFork      map[string]int64
	tables       map[*Term]*[4]uint64
	domC         []domEnt
	domStamp     int64
	xcnt int64
	rtypes       map[*TypeInfo]*Agg
	wid          int
	noMerge      bool
	panicked     bool
	obsV         []obsEnt
}

type obsEnt struct {
	tag string
	v   Value
	t   *TypeInfo
}

type abortKind uint8

const (
	abAssume abortKind = iota
	abUnsupported
	abSteps
	abUnknown
	abStop
	abExit
)

type engineAbort struct {
	kind abortKind
	msg  string
}

type goPanic struct{ p *Panic }

func (m *Machine) unsupported(f string, a ...any) {
	panic(engineAbort{abUnsupported, fmt.Sprintf(f, a...) + " in " + m.where()})
}

func (m *Machine) where() string {
	if m.top == nil {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for fr := m.top; fr != nil && n < 12; fr = fr.parent {
		pos := ""
		if fr.pc > 0 && int(fr.pc-1) < len(fr.fn.code) {
			ps := m.p.fset.Position(fr.fn.code[fr.pc-1].pos)
			f := ps.Filename
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			pos = fmt.Sprintf("(%s:%d)", f, ps.Line)
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.name + pos)
		n++
	}
	return sb.String()
}

// throw raises a Go runtime panic in the interpreted program.
func (m *Machine) throw(msg string) {
	v := Value{o: &Iface{t: m.rtErrT, v: strVal(msg)}}
	panic(goPanic{&Panic{val: v, rt: msg}})
}

func (m *Machine) get(fr *Frame, i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	c := &fr.fn.consts[^i]
	if c.global >= 0 {
		return m.globalPtr(c.global)
	}
	return c.v
}

func (m *Machine) globalPtr(id int) Value {
	for len(m.globals) <= id {
		m.globals = append(m.globals, nil)
	}
	a := m.globals[id]
	if a == nil {
		m.p.gmu.Lock()
		g := m.p.glist[id]
		m.p.gmu.Unlock()
		ti := m.p.tt.get(g.Type()).elem
		// a lazily created global must be revertible: creating zero state is
		// idempotent, but later stores (also to nested aggregates) must be logged.
		save := m.epoch
		m.epoch = 0
		if ti.hasAgg {
			a = m.zero(ti).o.(*Agg)
		} else {
			a = &Agg{e: make([]Value, 1), epoch: m.epoch, elem: ti}
		}
		m.epoch = save
		m.globals[id] = a
	}
	m.p.gmu.Lock()
	g := m.p.glist[id]
	m.p.gmu.Unlock()
	_ = g
	if a.ty != nil {
		return Value{o: a, u: WHOLE}
	}
	return Value{o: a}
}

// ---- memory ----

func (m *Machine) setElem(a *Agg, i int, v Value) {
	if a.frozen {
		m.frozenWrite(a)
	}
	if a.epoch != m.epoch {
		m.undo = append(m.undo, undoEnt{a: a, i: i, old: a.e[i]})
	}
	a.e[i] = v
}

func (m *Machine) frozenWrite(a *Agg) {
	m.ex.violation(m, "frozen", "write to frozen memory at "+m.where())
	panic(engineAbort{abAssume, "frozen write"})
}

func (m *Machine) load(p Value, ti *TypeInfo) Value {
	switch a := p.o.(type) {
	case *Agg:
		if ti.hasAgg {
			if p.u != WHOLE {
				// pointer to array element holding aggregate via unsafe; nested
				return Value{o: m.copyAgg(a.e[p.u].o.(*Agg))}
			}
			return Value{o: m.copyAgg(a)}
		}
		if p.u == WHOLE {
			// reinterpretation: pointer to struct/array used as pointer to first scalar
			if len(a.e) == 0 {
				return Value{}
			}
			return a.e[0]
		}
		v := a.e[p.u]
		if ti.kind == KString {
			if s, ok := v.o.(*Slice); ok {
				return mkStr(m.sliceVals(s))
			}
		}
		return v
	case *SymPtr:
		if ti.hasAgg {
			i := m.concretize(a.idx)
			return Value{o: m.copyAgg(a.a.e[a.off+int(i)].o.(*Agg))}
		}
		return m.selectElem(a.a.e[a.off:a.off+a.n], a.idx, ti)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	}
	m.unsupported("load via %T", p.o)
	return Value{}
}

// selectElem reads vals[idx] where idx is symbolic and in range.
func (m *Machine) selectElem(vals []Value, idx *Term, ti *TypeInfo) Value {
	if ti.kind == KInt || ti.kind == KBool {
		conc := true
		for i := range vals {
			if vals[i].o != nil {
				conc = false
				break
			}
		}
		w := ti.w
		if conc {
			us := make([]uint64, len(vals))
			for i := range vals {
				us[i] = vals[i].u & maskB(w)
			}
			if w == 0 {
				t := m.tb.Select(us, 8, idx)
				return m.fromTerm(m.tb.Not(m.tb.Eq(t, m.tb.Const(0, 8))), ti)
			}
			return m.fromTerm(m.tb.Select(us, w, idx), ti)
		}
		if len(vals) <= 64 {
			t := m.toTerm(vals[len(vals)-1], w)
			for i := len(vals) - 2; i >= 0; i-- {
				t = m.tb.Ite(m.tb.Eq(idx, m.tb.Const(uint64(i), 64)), m.toTerm(vals[i], w), t)
			}
			return m.fromTerm(t, ti)
		}
	}
	i := m.concretize(idx)
	return vals[i]
}

func (m *Machine) store(p Value, v Value, ti *TypeInfo) {
	switch a := p.o.(type) {
	case *Agg:
		if ti.hasAgg {
			dst := a
			if p.u != WHOLE {
				dst = a.e[p.u].o.(*Agg)
			}
			m.storeAgg(dst, v.o.(*Agg))
			return
		}
		if p.u == WHOLE {
			m.setElem(a, 0, v)
			return
		}
		m.setElem(a, int(p.u), v)
	case *SymPtr:
		i := m.concretize(a.idx)
		m.store(Value{o: a.a, u: uint64(a.off) + i}, v, ti)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	default:
		m.unsupported("store via %T", p.o)
	}
}

func (m *Machine) storeAgg(dst, src *Agg) {
	if dst == src {
		return
	}
	if len(dst.e) != len(src.e) {
		m.unsupported("storeAgg size mismatch %d %d", len(dst.e), len(src.e))
	}
	if dst.ty != nil && dst.ty.simple {
		if dst.frozen {
			m.frozenWrite(dst)
		}
		if dst.epoch == m.epoch {
			copy(dst.e, src.e)
			return
		}
		for i := range src.e {
			m.setElem(dst, i, src.e[i])
		}
		return
	}
	for i := range src.e {
		var nested bool
		if dst.ty != nil && dst.ty.kind == KStruct {
			nested = dst.ty.fields[i].hasAgg
		} else if dst.elem != nil {
			nested = dst.elem.hasAgg
		}
		if nested {
			m.storeAgg(dst.e[i].o.(*Agg), src.e[i].o.(*Agg))
		} else {
			m.setElem(dst, i, src.e[i])
		}
	}
}

func (m *Machine) sliceVals(s *Slice) []Value {
	if s == nil {
		return nil
	}
	r := make([]Value, s.len)
	copy(r, s.a.e[s.off:s.off+s.len])
	return r
}

// ---- terms <-> values ----

func (m *Machine) toTerm(v Value, w uint8) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return m.tb.Const(v.u, w)
}

func (m *Machine) fromTerm(t *Term, ti *TypeInfo) Value {
	if t.isConst() {
		if ti.signed {
			return Value{u: uint64(sext(t.k, t.w))}
		}
		return Value{u: t.k}
	}
	return Value{o: t}
}

func (m *Machine) boolVal(t *Term) Value {
	if t.isConst() {
		return Value{u: t.k}
	}
	return Value{o: t}
}

func bv(b bool) Value { return Value{u: b2u(b)} }

// ---- decisions ----

func (m *Machine) addPC(t *Term) { m.addFact(t, true) }
func (m *Machine) addFact(t *Term, pc bool) {
	if t.isConst() {
		return
	}
	if t.op == OBAnd {
		m.addFact(t.a, pc)
		m.addFact(t.b, pc)
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		m.addFact(m.tb.Not(t.a.a), pc)
		m.addFact(m.tb.Not(t.a.b), pc)
		return
	}
	if _, ok := m.known[t]; ok {
		return
	}
	if pc {
		m.pc = append(m.pc, t)
	}
	m.known[t] = true
	m.known[m.tb.Not(t)] = false
	m.knownLog = append(m.knownLog, t)
	if t.op == OEq && t.a.op == OVar && t.b.isConst() {
		m.fixed.or(&t.a.vars)
	} else if t.op == OVar && t.w == 0 {
		m.fixed.or(&t.vars)
	} else if t.op == OBNot && t.a.op == OVar {
		m.fixed.or(&t.vars)
	}
}

func (m *Machine) truncKnown(n int) {
	for i := n; i < len(m.knownLog); i++ {
		t := m.knownLog[i]
		delete(m.known, t)
		delete(m.known, m.tb.Not(t))
	}
	m.knownLog = m.knownLog[:n]
}

func (m *Machine) setModel(model []uint64) {
	m.model = model
	clear(m.memo)
}

func (m *Machine) eval(t *Term) uint64 {
	return m.tb.Eval(t, m.model, m.memo)
}

func subset(a, b *varset) bool {
	return a[0]&^b[0] == 0 && a[1]&^b[1] == 0 && a[2]&^b[2] == 0
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool { return m.branchV(c, 0) }

func (m *Machine) branchV(c *Term, cv uint64) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.qi < len(m.queue) {
		d := m.queue[m.qi]
		m.qi++
		m.decs = append(m.decs, d)
		return d.b
	}
	if k, ok := m.known[c]; ok {
		m.decs = append(m.decs, Dec{k, cv})
		return k
	}
	if subset(&c.vars, &m.fixed) {
		v := m.eval(c) != 0
		m.decs = append(m.decs, Dec{v, cv})
		return v
	}
	if m.pi < len(m.prefix) {
		d := m.prefix[m.pi]
		m.pi++
		m.decs = append(m.decs, d)
		m.trace = append(m.trace, d)
		if d.b {
			m.addPC(c)
		} else {
			m.addPC(m.tb.Not(c))
		}
		return d.b
	}
	v := m.eval(c) != 0
	neg, pos := c, c
	if v {
		neg = m.tb.Not(c)
	} else {
		pos = m.tb.Not(c)
	}
	res, nm := m.check(neg, m.model)
	if res == resUnknown {
		m.ex.noteUnknown(m)
	}
	if res == resSat {
		atomic.AddInt64(&m.ex.res.Forks, 1)
		if m.ex.forkStats != nil {
			m.ex.noteFork(m)
		}
		m.snapshot(neg, Dec{!v, cv}, nm)
	}
	d := Dec{v, cv}
	m.decs = append(m.decs, d)
	m.trace = append(m.trace, d)
	m.addFact(pos, res == resSat || res == resUnknown)
	return v
}

func (m *Machine) snapshot(cond *Term, alt Dec, model []uint64) {
	for f := m.top; f != nil && !f.shared; f = f.parent {
		f.shared = true
	}
	p := &pending{
		top: m.top, pcLen: len(m.pc), cond: cond, undoLen: m.curUndo, model: model,
		traceLen: len(m.trace), alt: alt, nvars: m.curNV, steps: m.steps, obsLen: len(m.obsV),
		varLen: m.curNV, fixed: m.fixed, depth: m.depth, mapOrder: m.mapOrder, knownLen: len(m.knownLog),
	}
	p.decs = make([]Dec, len(m.decs)+1)
	copy(p.decs, m.decs)
	p.decs[len(m.decs)] = alt
	// the snapshot re-executes the current instruction
	if m.top != nil {
		cp := *m.top
		cp.pc = m.curPC
		cp.shared = true
		p.top = &cp
		// current frame continues on a private copy of the registers
		n := *m.top
		n.regs = append([]Value(nil), m.top.regs...)
		n.shared = false
		m.top = &n
		m.curTop = &n
	}
	m.epoch++
	m.pend = append(m.pend, p)
	m.ex.maybeDonate(m)
}

func (m *Machine) rollback(n int) {
	for i := len(m.undo) - 1; i >= n; i-- {
		u := &m.undo[i]
		switch u.kind {
		case uAgg:
			u.a.e[u.i] = u.old
		case uMapIns:
			m.mapUndoInsert(u.m, u.key)
		case uMapSet:
			u.m.ents[u.i].v = u.old
		case uMapDel:
			u.m.ents[u.i].dead = false
			u.m.live++
			if u.key != nil {
				u.m.idx[u.key] = u.i
			} else {
				u.m.nsym++
			}
		case uFreezeA:
			u.a.frozen = false
		case uFreezeM:
			u.m.frozen = false
		}
		*u = undoEnt{}
	}
	m.undo = m.undo[:n]
	m.epoch++
}

// resume continues with the most recent pending alternative.
func (m *Machine) resume(p *pending) {
	m.rollback(p.undoLen)
	m.pc = m.pc[:p.pcLen]
	m.truncKnown(p.knownLen)
	m.fixed = p.fixed
	m.addPC(p.cond)
	m.setModel(p.model)
	m.trace = append(m.trace[:p.traceLen], p.alt)
	m.top = p.top
	m.nvars = p.nvars
	m.varW = m.varW[:p.varLen]
	m.steps = p.steps
	m.obsV = m.obsV[:p.obsLen]
	m.queue = p.decs
	m.qi = 0
	m.decs = m.decs[:0]
	m.depth = p.depth
	m.mapOrder = p.mapOrder
	m.done = false
}

// concretize forks over all feasible values of t and returns this path's value.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	for n := 0; ; n++ {
		var cand uint64
		if m.qi < len(m.queue) {
			cand = m.queue[m.qi].v
		} else {
			cand = m.eval(t)
			if subset(&t.vars, &m.fixed) || m.known[m.tb.Eq(t, m.tb.Const(cand, t.w))] {
				m.decs = append(m.decs, Dec{true, cand})
				return cand
			}
			if m.pi < len(m.prefix) {
				cand = m.prefix[m.pi].v
			}
		}
		if m.branchV(m.tb.Eq(t, m.tb.Const(cand, t.w)), cand) {
			return cand
		}
		if n > 300 {
			m.unsupported("concretize: too many values")
		}
	}
}

func (m *Machine) concInt(v Value, ti *TypeInfo) Value {
	if t, ok := v.o.(*Term); ok {
		c := m.concretize(t)
		if ti.signed {
			return Value{u: uint64(sext(c, t.w))}
		}
		return Value{u: c}
	}
	return v
}

// assume restricts the path to c without exploring the other side.
func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(engineAbort{abAssume, "assume"})
		}
		return
	}
	if m.eval(c) == 0 {
		res, nm := m.check(c, m.model)
		if res == resUnknown {
			m.ex.noteUnknown(m)
		}
		if res != resSat {
			panic(engineAbort{abAssume, "assume"})
		}
		m.setModel(nm)
	}
	m.addPC(c)
}

// concBool decides a (possibly symbolic) boolean value.
func (m *Machine) concBool(v Value) bool {
	if t, ok := v.o.(*Term); ok {
		return m.branch(t)
	}
	return v.u != 0
}

func (m *Machine) concStrV(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].o.(*Term); ok {
			r[i] = byte(m.concretize(t))
		} else {
			r[i] = byte(b[i].u)
		}
	}
	return string(r)
}

// ---- frames ----

func (m *Machine) pushCall(f *Func, args []Value, fv []Value, dst int32) *Frame {
	if !f.compd {
		m.p.compile(f)
	}
	if len(f.code) == 0 {
		m.unsupported("function without body %s", f.name)
	}
	m.depth++
	if m.depth > m.maxDepth {
		m.depth--
		panic(engineAbort{abSteps, "call depth exceeded in " + m.where()})
	}
	fr := &Frame{fn: f, regs: make([]Value, f.nregs), dst: dst, parent: m.top}
	copy(fr.regs, args)
	if len(fv) > 0 {
		copy(fr.regs[f.nparam:], fv)
	}
	m.top = fr
	if f.inRepo || m.ex == nil || m.ex.trackAll {
		m.hits[f]++
	}
	return fr
}

func (m *Machine) private() *Frame {
	fr := m.top
	if fr.shared {
		n := *fr
		n.regs = append([]Value(nil), fr.regs...)
		n.shared = false
		m.top = &n
		return &n
	}
	return fr
}

// callValue invokes a function value; the result goes to register dst of the caller.
func (m *Machine) callFn(f *Func, args, fv []Value, dst int32) {
	if f.intr != nil {
		r, ok := f.intr(m, args, f, dst)
		if ok {
			if dst >= 0 && m.top != nil {
				m.setDst(dst, r)
			}
			return
		}
		// not handled: fall through to interpretation (or frame pushed)
		if r.o == framePushed {
			return
		}
	}
	m.pushCall(f, args, fv, dst)
}

type framePushedT struct{}

var framePushed = &framePushedT{}

func (m *Machine) setDst(dst int32, v Value) {
	fr := m.private()
	fr.regs[dst] = v
}

func (m *Machine) closureOf(v Value) (*Func, []Value) {
	switch c := v.o.(type) {
	case *Closure:
		return c.fn, c.fv
	case *Func:
		return c, nil
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	}
	m.unsupported("call of %T", v.o)
	return nil, nil
}

// doReturn pops the current frame with the result.
func (m *Machine) doReturn(v Value) {
	fr := m.top
	m.top = fr.parent
	m.depth--
	if fr.post != nil {
		v = fr.post(m, v)
	}
	if fr.isDefer {
		m.afterDefer()
		return
	}
	if m.top == nil {
		m.done = true
		return
	}
	if fr.dst >= 0 {
		m.setDst(fr.dst, v)
	}
}

// afterDefer continues the frame whose deferred call just finished.
func (m *Machine) afterDefer() {
	fr := m.top
	if fr.pnc != nil || fr.fn.rec != nil && fr.pc == -1 {
		m.unwind()
		return
	}
	// normal RunDefers: pc still points at the RunDefers instruction
}

// startPanic begins unwinding with p.
func (m *Machine) startPanic(p *Panic) {
	if p.stack == "" {
		p.stack = m.where()
	}
	fr := m.private()
	fr.pnc = p
	m.unwind()
}

// unwind runs deferred calls of the top frame and propagates the panic.
func (m *Machine) unwind() {
	for {
		fr := m.private()
		if fr.pnc != nil && fr.pnc.recovered {
			fr.pnc = nil
			fr.pc = -1 // marker: recovered, must return via recover block
		}
		if d := fr.defers; d != nil {
			fr.defers = d.next
			if m.runDeferred(d) {
				return // frame pushed
			}
			continue
		}
		if fr.pnc == nil {
			// recovered: return from function via recover block
			if fr.fn.rec != nil {
				fr.pc = fr.fn.rec.pc
				return
			}
			var z Value
			if fr.fn.res != nil {
				z = m.zero(fr.fn.res)
			}
			m.doReturn(z)
			return
		}
		p := fr.pnc
		m.top = fr.parent
		m.depth--
		if m.top == nil {
			m.done = true
			m.panicked = true
			if m.initMode {
				panic(engineAbort{abUnsupported, "panic during init: " + m.panicText(p.val) + " " + p.rt + " at " + p.stack})
			}
			m.ex.uncaught(m, p)
			return
		}
		if fr.isDefer {
			// panic out of a deferred call replaces the parent's panic
		}
		par := m.private()
		par.pnc = p
	}
}

// runDeferred starts a deferred call; reports whether a frame was pushed.
func (m *Machine) runDeferred(d *deferNode) bool {
	if d.bi != nil {
		m.builtin(m.top, d.bi, d.args)
		return false
	}
	f, fv := d.f, []Value(nil)
	if f == nil {
		f, fv = m.closureOf(d.fn)
	}
	before := m.top
	if f.intr != nil {
		r, ok := f.intr(m, d.args, f, noReg)
		if ok {
			return false
		}
		if r.o == framePushed {
			m.top.isDefer = true
			return m.top != before
		}
	}
	fr := m.pushCall(f, d.args, fv, noReg)
	fr.isDefer = true
	return true
}

// ---- main loop ----

// run executes until the path ends.
func (m *Machine) run() {
	for !m.done {
		m.runGuard()
	}
}

func (m *Machine) runGuard() {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.decs = m.decs[:0]
				m.queue = nil
				m.qi = 0
				m.startPanic(gp.p)
				return
			}
			panic(r)
		}
	}()
	m.loop()
}

func (m *Machine) loop() {
	for !m.done {
		fr := m.top
		if fr.shared {
			fr = m.private()
		}
		pc := fr.pc
		in := &fr.fn.code[pc]
		m.curPC = pc
		m.curNV = m.nvars
		m.curUndo = len(m.undo)
		fr.pc = pc + 1
		m.steps++
		if m.steps&0xfff == 0 && !m.initMode {
			m.tick()
		}
		if m.steps > m.maxSteps {
			panic(engineAbort{abSteps, "step budget exceeded in " + m.where()})
		}
		if len(m.decs) > 0 {
			m.decs = m.decs[:0]
		}
		if m.queue != nil {
			if m.qi > 0 {
				m.queue = nil
			}
			m.qi = 0
		}
		switch in.op {
		case IJump:
			m.takeEdge(fr, in.e1)
		case IIf:
			c := m.get(fr, in.a)
			if c.o == nil {
				if c.u != 0 {
					m.takeEdge(fr, in.e1)
				} else {
					m.takeEdge(fr, in.e2)
				}
				break
			}
			m.symIf(fr, in, c.o.(*Term))
		case IBinOp:
			v := m.binop(in, m.get(fr, in.a), m.get(fr, in.b))
			m.top.regs[in.dst] = v
		case ILoad:
			v := m.load(m.get(fr, in.a), in.ty)
			m.top.regs[in.dst] = v
		case IStore:
			m.store(m.get(fr, in.a), m.get(fr, in.b), in.xty)
		case IMove:
			fr.regs[in.dst] = m.get(fr, in.a)
		case IFieldAddr:
			p := m.get(fr, in.a)
			fr.regs[in.dst] = m.fieldAddr(p, in)
		case IField:
			a := m.get(fr, in.a).o.(*Agg)
			fr.regs[in.dst] = a.e[in.n]
		case IIndexAddr:
			v := m.indexAddr(fr, in, m.get(fr, in.a), m.get(fr, in.b))
			m.top.regs[in.dst] = v
		case IExtract:
			fr.regs[in.dst] = m.get(fr, in.a).o.([]Value)[in.n]
		case ICall:
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(fr, a)
			}
			m.callFn(in.fn, args, nil, in.dst)
		case ICallInvoke:
			recv := m.get(fr, in.a)
			if recv.o == nil {
				m.throw("invalid memory address or nil pointer dereference")
			}
			ifc := recv.o.(*Iface)
			f := m.method(ifc.t, in)
			args := make([]Value, len(in.args)+1)
			args[0] = ifc.v
			for i, a := range in.args {
				args[i+1] = m.get(fr, a)
			}
			m.callFn(f, args, nil, in.dst)
		case ICallDyn:
			f, fv := m.closureOf(m.get(fr, in.a))
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(fr, a)
			}
			m.callFn(f, args, fv, in.dst)
		case ICallBuiltin:
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(fr, a)
			}
			v := m.builtin(fr, in, args)
			if in.dst >= 0 {
				m.top.regs[in.dst] = v
			}
		case IReturn:
			switch len(in.args) {
			case 0:
				m.doReturn(Value{})
			case 1:
				m.doReturn(m.get(fr, in.args[0]))
			default:
				vs := make([]Value, len(in.args))
				for i, a := range in.args {
					vs[i] = m.get(fr, a)
				}
				m.doReturn(Value{o: vs})
			}
		case IAlloc:
			if in.xty.hasAgg {
				fr.regs[in.dst] = Value{o: m.zero(in.xty).o, u: WHOLE}
			} else {
				fr.regs[in.dst] = Value{o: &Agg{e: make([]Value, 1), epoch: m.epoch, elem: in.xty}}
			}
		case IMakeIface:
			fr.regs[in.dst] = Value{o: &Iface{t: in.xty, v: m.get(fr, in.a)}}
		case IMakeClosure:
			fv := make([]Value, len(in.args))
			for i, a := range in.args {
				fv[i] = m.get(fr, a)
			}
			fr.regs[in.dst] = Value{o: &Closure{fn: in.fn, fv: fv}}
		case INot:
			v := m.get(fr, in.a)
			if t, ok := v.o.(*Term); ok {
				fr.regs[in.dst] = m.boolVal(m.tb.Not(t))
			} else {
				fr.regs[in.dst] = Value{u: v.u ^ 1}
			}
		case INeg:
			fr.regs[in.dst] = m.neg(in, m.get(fr, in.a))
		case ICompl:
			v := m.get(fr, in.a)
			if t, ok := v.o.(*Term); ok {
				fr.regs[in.dst] = m.fromTerm(m.tb.BVNot(t), in.ty)
			} else {
				fr.regs[in.dst] = canon(^v.u, in.ty)
			}
		case IConvert:
			v := m.convert(m.get(fr, in.a), in.xty, in.ty)
			m.top.regs[in.dst] = v
		case IIndex:
			v := m.index(in, m.get(fr, in.a), m.get(fr, in.b))
			m.top.regs[in.dst] = v
		case ILookup:
			v := m.lookup(in, m.get(fr, in.a), m.get(fr, in.b))
			m.top.regs[in.dst] = v
		case IMakeMap:
			fr.regs[in.dst] = Value{o: m.newMap(in.ty)}
		case IMapUpdate:
			mv := m.get(fr, in.a)
			if mv.o == nil {
				m.throwPlain("assignment to entry in nil map")
			}
			m.mapSet(mv.o.(*MapObj), m.get(fr, in.b), m.get(fr, in.c))
		case IMakeSlice:
			n := m.concInt(m.get(fr, in.a), intTI)
			c := m.concInt(m.get(fr, in.b), intTI)
			if int64(n.u) < 0 || int64(c.u) < int64(n.u) || int64(c.u) > 1<<28 {
				m.throw("makeslice: len out of range")
			}
			el := in.ty.elem
			m.top.regs[in.dst] = Value{o: &Slice{a: m.newArr(el, int(c.u), nil), len: int(n.u), cap: int(c.u)}}
		case ISlice:
			v := m.slice(fr, in)
			m.top.regs[in.dst] = v
		case ITypeAssert:
			v := m.typeAssert(in, m.get(fr, in.a))
			fr.regs[in.dst] = v
		case IRange:
			fr.regs[in.dst] = m.rangeInit(in, m.get(fr, in.a))
		case INext:
			v := m.next(in, m.get(fr, in.a))
			m.top.regs[in.dst] = v
		case IDefer:
			d := &deferNode{next: fr.defers}
			dc := in.dcall
			for _, a := range dc.args {
				d.args = append(d.args, m.get(fr, a))
			}
			switch dc.op {
			case ICall:
				d.f = dc.fn
			case ICallDyn:
				d.fn = m.get(fr, dc.a)
			case ICallInvoke:
				recv := m.get(fr, dc.a)
				if recv.o == nil {
					m.throw("invalid memory address or nil pointer dereference")
				}
				ifc := recv.o.(*Iface)
				d.f = m.method(ifc.t, dc)
				d.args = append([]Value{ifc.v}, d.args...)
			case ICallBuiltin:
				d.bi = dc
			}
			fr.defers = d
		case IRunDefers:
			if d := fr.defers; d != nil {
				fr.defers = d.next
				fr.pc = pc // come back here until none are left
				m.runDeferred(d)
			}
		case IPanic:
			v := m.get(fr, in.a)
			if v.o == nil {
				m.throw("panic called with nil argument")
			}
			panic(goPanic{&Panic{val: v}})
		case ISliceToArr:
			v := m.get(fr, in.a)
			s, _ := v.o.(*Slice)
			n := in.ty.elem.n
			if s == nil || s.len < n {
				if n == 0 {
					fr.regs[in.dst] = Value{o: m.zero(in.ty.elem).o, u: WHOLE}
					break
				}
				m.throw("cannot convert slice to array pointer: length mismatch")
			}
			m.unsupported("slice to array pointer")
		case IMakeChan:
			fr.regs[in.dst] = Value{o: &Agg{e: make([]Value, 1)}}
		default:
			m.unsupported("instruction %s op %d", in.bname, in.op)
		}
	}
}

func (m *Machine) method(t *TypeInfo, in *Instr) *Func {
	f := m.p.findMethod(t, in.mkey, in.method)
	if f == nil {
		m.unsupported("method %s on %s", in.mkey, t)
	}
	return f
}

func (m *Machine) takeEdge(fr *Frame, e *edge) {
	fr.pc = e.pc
	switch len(e.moves) {
	case 0:
	case 1:
		fr.regs[e.moves[0].dst] = m.get(fr, e.moves[0].src)
	default:
		var buf [8]Value
		vals := buf[:0]
		for _, mv := range e.moves {
			vals = append(vals, m.get(fr, mv.src))
		}
		for i, mv := range e.moves {
			fr.regs[mv.dst] = vals[i]
		}
	}
}

func (m *Machine) fieldAddr(p Value, in *Instr) Value {
	switch a := p.o.(type) {
	case *Agg:
		if p.u != WHOLE {
			a = a.e[p.u].o.(*Agg)
		}
		if in.n >= len(a.e) {
			m.unsupported("fieldaddr out of layout %d/%d", in.n, len(a.e))
		}
		if in.commaOk {
			return Value{o: a.e[in.n].o, u: WHOLE}
		}
		return Value{o: a, u: uint64(in.n)}
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := m.concretize(a.idx)
		return m.fieldAddr(Value{o: a.a.e[a.off+int(i)].o, u: WHOLE}, in)
	}
	m.unsupported("fieldaddr of %T", p.o)
	return Value{}
}

func canon(u uint64, ti *TypeInfo) Value {
	if ti.w >= 64 || ti.kind != KInt {
		return Value{u: u}
	}
	if ti.signed {
		return Value{u: uint64(sext(u, ti.w))}
	}
	return Value{u: u & mask(ti.w)}
}

func (m *Machine) neg(in *Instr, v Value) Value {
	switch in.ty.kind {
	case KFloat:
		return Value{u: math.Float64bits(-math.Float64frombits(v.u))}
	case KInt:
		if t, ok := v.o.(*Term); ok {
			return m.fromTerm(m.tb.Neg(t), in.ty)
		}
		return canon(-v.u, in.ty)
	}
	m.unsupported("neg")
	return Value{}
}

// ---- region merging for symbolic branches ----

type exitGroup struct {
	e    *edge
	vals []Value
	cond *Term
}

func (m *Machine) symIf(fr *Frame, in *Instr, c *Term) {
	f := fr.fn
	if m.noMerge || !(f.blks[in.e1.blk].pure || f.blks[in.e2.blk].pure || in.e1.blk == in.e2.blk || f.blks[in.e1.blk].hasPhi || f.blks[in.e2.blk].hasPhi) {
		if m.branch(c) {
			m.takeEdge(m.top, in.e1)
		} else {
			m.takeEdge(m.top, in.e2)
		}
		return
	}
	// explore the pure acyclic region below this branch
	conds := map[int32]*Term{}
	var order []int32
	var groups []exitGroup
	nblk := 0
	tb := m.tb
	addExit := func(e *edge, cond *Term) {
		vals := make([]Value, len(e.moves))
		for i, mv := range e.moves {
			vals[i] = m.get(fr, mv.src)
		}
		for gi := range groups {
			g := &groups[gi]
			if g.e.blk != e.blk || len(g.e.moves) != len(e.moves) {
				continue
			}
			ok := true
			for i := range vals {
				if g.e.moves[i].dst != e.moves[i].dst {
					ok = false
					break
				}
				if !sameVal(g.vals[i], vals[i]) && !m.mergeable(g.vals[i], vals[i], fr.fn, e.moves[i].dst) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			for i := range vals {
				if !sameVal(g.vals[i], vals[i]) {
					g.vals[i] = m.mergeVal(cond, vals[i], g.vals[i], fr.fn.rtys[e.moves[i].dst])
				}
			}
			g.cond = tb.Or(g.cond, cond)
			return
		}
		groups = append(groups, exitGroup{e: e, vals: vals, cond: cond})
	}
	addEdge := func(e *edge, cond *Term) {
		if cond.isConst() && cond.k == 0 {
			return
		}
		b := &f.blks[e.blk]
		if b.pure && len(e.moves) == 0 && nblk < 400 {
			if old, ok := conds[e.blk]; ok {
				if old != nil {
					conds[e.blk] = tb.Or(old, cond)
					return
				}
				// already processed: cyclic or non-topological order; treat as exit
			} else {
				conds[e.blk] = cond
				order = append(order, e.blk)
				nblk++
				return
			}
		}
		addExit(e, cond)
	}
	addEdge(in.e1, c)
	addEdge(in.e2, tb.Not(c))
	for len(order) > 0 {
		// pick the pending block with all region predecessors processed: approximate
		// topological order by smallest number of pending predecessors
		bi := 0
		if len(order) > 1 {
			best := -1
			for i, b := range order {
				ready := true
				for _, pb := range f.fn.Blocks[b].Preds {
					if cnd, ok := conds[int32(pb.Index)]; ok && cnd != nil {
						ready = false
						break
					}
				}
				if ready {
					best = i
					break
				}
			}
			if best >= 0 {
				bi = best
			}
		}
		b := order[bi]
		order = append(order[:bi], order[bi+1:]...)
		cond := conds[b]
		conds[b] = nil
		blk := &f.blks[b]
		ok := true
		for pc := blk.start; pc < blk.end-1; pc++ {
			if !m.tryPure(fr, &f.code[pc]) {
				ok = false
				break
			}
		}
		if !ok {
			addExit(&edge{pc: blk.start, blk: b}, cond)
			continue
		}
		t := &f.code[blk.end-1]
		switch t.op {
		case IJump:
			addEdge(t.e1, cond)
		case IIf:
			cv := m.get(fr, t.a)
			if ct, isT := cv.o.(*Term); isT {
				addEdge(t.e1, tb.And(cond, ct))
				addEdge(t.e2, tb.And(cond, tb.Not(ct)))
			} else if cv.u != 0 {
				addEdge(t.e1, cond)
			} else {
				addEdge(t.e2, cond)
			}
		}
	}
	gi := 0
	for ; gi < len(groups)-1; gi++ {
		if m.branch(groups[gi].cond) {
			break
		}
	}
	g := &groups[gi]
	fr = m.top
	fr.pc = g.e.pc
	for i, mv := range g.e.moves {
		fr.regs[mv.dst] = g.vals[i]
	}
}

func sameVal(a, b Value) bool {
	if a.u != b.u {
		return false
	}
	switch x := a.o.(type) {
	case nil:
		return b.o == nil
	case *Term:
		return b.o == any(x)
	case string:
		y, ok := b.o.(string)
		return ok && x == y
	case []Value:
		return false
	}
	switch b.o.(type) {
	case []Value, nil:
		return false
	}
	return a.o == b.o
}

func (m *Machine) mergeable(a, b Value, f *Func, dst int32) bool {
	// only booleans and narrow integers; type is taken from the phi register
	ti := f.rtys[dst]
	if ti == nil {
		return false
	}
	if ti.kind == KBool {
		return true
	}
	if ti.kind == KInt && ti.w < 64 {
		return true
	}
	return false
}

func (m *Machine) mergeVal(c *Term, a, b Value, ti *TypeInfo) Value {
	return m.fromTerm(m.tb.Ite(c, m.toTerm(a, ti.w), m.toTerm(b, ti.w)), ti)
}

// tryPure executes a side-effect free instruction; false if it would trap or fork.
func (m *Machine) tryPure(fr *Frame, in *Instr) bool {
	switch in.op {
	case IBinOp:
		a, b := m.get(fr, in.a), m.get(fr, in.b)
		switch in.xty.kind {
		case KInt, KBool:
			switch in.tok {
			case token.QUO, token.REM, token.SHL, token.SHR:
				if a.o != nil || b.o != nil || b.u == 0 {
					return false
				}
			}
		case KString, KFloat:
		default:
			return false
		}
		fr.regs[in.dst] = m.binop(in, a, b)
		return true
	case INot:
		v := m.get(fr, in.a)
		if t, ok := v.o.(*Term); ok {
			fr.regs[in.dst] = m.boolVal(m.tb.Not(t))
		} else {
			fr.regs[in.dst] = Value{u: v.u ^ 1}
		}
		return true
	case ICompl, INeg:
		if in.ty.kind != KInt {
			return false
		}
		v := m.get(fr, in.a)
		if in.op == INeg {
			fr.regs[in.dst] = m.neg(in, v)
		} else if t, ok := v.o.(*Term); ok {
			fr.regs[in.dst] = m.fromTerm(m.tb.BVNot(t), in.ty)
		} else {
			fr.regs[in.dst] = canon(^v.u, in.ty)
		}
		return true
	case IMove:
		fr.regs[in.dst] = m.get(fr, in.a)
		return true
	case IConvert:
		if in.xty.kind != KInt || in.ty.kind != KInt {
			return false
		}
		fr.regs[in.dst] = m.convert(m.get(fr, in.a), in.xty, in.ty)
		return true
	case IFieldAddr:
		p := m.get(fr, in.a)
		if _, ok := p.o.(*Agg); !ok {
			return false
		}
		fr.regs[in.dst] = m.fieldAddr(p, in)
		return true
	case IField:
		fr.regs[in.dst] = m.get(fr, in.a).o.(*Agg).e[in.n]
		return true
	case IExtract:
		fr.regs[in.dst] = m.get(fr, in.a).o.([]Value)[in.n]
		return true
	case ILoad:
		p := m.get(fr, in.a)
		switch p.o.(type) {
		case *Agg:
		case *SymPtr:
			if in.ty.kind != KInt && in.ty.kind != KBool {
				return false
			}
			sp := p.o.(*SymPtr)
			if sp.n > 64 {
				for _, v := range sp.a.e[sp.off : sp.off+sp.n] {
					if v.o != nil {
						return false
					}
				}
			}
		default:
			return false
		}
		if in.ty.hasAgg {
			return false
		}
		fr.regs[in.dst] = m.load(p, in.ty)
		return true
	case IIndexAddr:
		x, i := m.get(fr, in.a), m.get(fr, in.b)
		if i.o != nil {
			return false
		}
		n := m.lenForIndex(in, x)
		if n < 0 || i.u >= uint64(n) {
			return false
		}
		fr.regs[in.dst] = m.indexAddr(fr, in, x, i)
		return true
	case ICallBuiltin:
		if in.bname == "len" {
			x := m.get(fr, in.args[0])
			fr.regs[in.dst] = m.builtin(fr, in, []Value{x})
			return true
		}
	}
	return false
}
