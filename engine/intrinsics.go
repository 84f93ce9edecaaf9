package main

import (
	"fmt"
	"hash/crc32"
	"math"
	"math/big"
	"math/bits"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// intrinsic implements a function natively. It returns (result, true) when
// handled; (_, false) to fall back to interpreting the body, or
// (Value{o: framePushed}, false) when it pushed a frame itself.
type intrinsic func(m *Machine, args []Value, f *Func, dst int32) (Value, bool)

var intrinsics = map[string]intrinsic{}

var solverDump *os.File
var solverDumpMu sync.Mutex

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func tup(vs ...Value) Value { return Value{o: vs} }

func nop(m *Machine, args []Value, f *Func, dst int32) (Value, bool) { return Value{}, true }

func sliceBytes(m *Machine, v Value) []Value {
	s, _ := v.o.(*Slice)
	if s == nil {
		return nil
	}
	return s.a.e[s.off : s.off+s.len]
}

func (m *Machine) newByteSlice(b []Value, ti *TypeInfo) Value {
	a := &Agg{e: b, epoch: m.epoch, elem: ti.elem}
	return Value{o: &Slice{a: a, len: len(b), cap: len(b)}}
}

func (m *Machine) indexByte(b []Value, c Value) Value {
	for i := range b {
		if m.concBool(m.eqByte(b[i], c)) {
			return Value{u: uint64(i)}
		}
	}
	return Value{u: ^uint64(0)}
}

func (m *Machine) eqByte(a, b Value) Value {
	if a.o == nil && b.o == nil {
		return bv(byte(a.u) == byte(b.u))
	}
	return m.boolVal(m.tb.Eq(m.toTerm(a, 8), m.toTerm(b, 8)))
}

func (m *Machine) lastIndexByte(b []Value, c Value) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if m.concBool(m.eqByte(b[i], c)) {
			return Value{u: uint64(i)}
		}
	}
	return Value{u: ^uint64(0)}
}

func (m *Machine) countByte(b []Value, c Value) Value {
	n := 0
	for i := range b {
		if m.concBool(m.eqByte(b[i], c)) {
			n++
		}
	}
	return Value{u: uint64(n)}
}

func (m *Machine) indexSub(a, b []Value) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if m.branch(m.bytesEq(a[i:i+len(b)], b)) {
			return Value{u: uint64(i)}
		}
	}
	return Value{u: ^uint64(0)}
}

func (m *Machine) compareBytes(a, b []Value) Value {
	conc := true
	for i := range a {
		if a[i].o != nil {
			conc = false
		}
	}
	for i := range b {
		if b[i].o != nil {
			conc = false
		}
	}
	if conc {
		x, _ := concStr(mkStr(a))
		y, _ := concStr(mkStr(b))
		return Value{u: uint64(int64(strings.Compare(x, y)))}
	}
	tb := m.tb
	lt := m.bytesLess(a, b, false)
	eq := tb.False
	if len(a) == len(b) {
		eq = m.bytesEq(a, b)
	}
	t := tb.Ite(lt, tb.Const(^uint64(0), 64), tb.Ite(eq, tb.Const(0, 64), tb.Const(1, 64)))
	return m.fromTerm(t, intTI)
}

func allConc(args []Value) bool {
	for _, a := range args {
		switch x := a.o.(type) {
		case *Term, *SymStr:
			return false
		case *Slice:
			for _, e := range x.a.e[x.off : x.off+x.len] {
				switch e.o.(type) {
				case *Term, *SymStr:
					return false
				}
			}
		}
	}
	return true
}

func init() {
	// the cache of interned strings is left out: it hashes the text
	reg("encoding/json/v2.makeString", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		a[0] = Value{}
		return Value{}, false
	})
	// --- harness API ---
	S := zz + "/sym."
	newVar := func(m *Machine, w uint8) *Term {
		if m.initMode {
			m.unsupported("symbolic input during init")
		}
		if m.nvars >= maxVars {
			m.unsupported("too many symbolic variables")
		}
		t := m.tb.Var(m.nvars, w)
		m.nvars++
		m.varW = append(m.varW, w)
		return t
	}
	reg(S+"Byte", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{o: newVar(m, 8)}, true })
	reg(S+"Bool", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{o: newVar(m, 0)}, true })
	reg(S+"Int "+S+"Int64 "+S+"Uint64", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return Value{o: newVar(m, 64)}, true
	})
	reg(S+"Rune "+S+"Int32", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{o: newVar(m, 32)}, true })
	reg(S+"Choice", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		// the variable must be allocated exactly once even when the
		// instruction is re-executed: nvars is restored by resume.
		n := a[0].u
		if int64(n) <= 0 {
			panic(engineAbort{abAssume, "empty choice"})
		}
		t := newVar(m, 64)
		m.assume(m.tb.Bin(OUlt, t, m.tb.Const(n, 64)))
		return Value{u: m.concretize(t)}, true
	})
	reg(S+"ByteIn", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		set := m.concStrV(a[0])
		t := newVar(m, 8)
		c := m.tb.False
		var in [256]bool
		for i := 0; i < len(set); i++ {
			in[set[i]] = true
		}
		for i := 0; i < 256; {
			if !in[i] {
				i++
				continue
			}
			j := i
			for j+1 < 256 && in[j+1] {
				j++
			}
			if i == j {
				c = m.tb.Or(c, m.tb.Eq(t, m.tb.Const(uint64(i), 8)))
			} else {
				c = m.tb.Or(c, m.tb.And(m.tb.Bin(OUle, m.tb.Const(uint64(i), 8), t), m.tb.Bin(OUle, t, m.tb.Const(uint64(j), 8))))
			}
			i = j + 1
		}
		m.assume(c)
		return Value{o: t}, true
	})
	reg(S+"IntRange", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		t := newVar(m, 64)
		c := m.tb.And(m.tb.Bin(OSle, m.toTerm(a[0], 64), t), m.tb.Bin(OSle, t, m.toTerm(a[1], 64)))
		m.assume(c)
		return Value{o: t}, true
	})
	reg(S+"Concrete", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.concInt(a[0], intTI), true
	})
	reg(S+"Assume", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.assume(m.toTerm(a[0], 0))
		return Value{}, true
	})
	reg(S+"Assert", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if m.qi == 0 {
			atomic.AddInt64(&m.ex.res.Asserts, 1)
			if a[0].o != nil {
				atomic.AddInt64(&m.ex.res.AssertsSym, 1)
			}
		}
		if !m.concBool(a[0]) {
			s, _ := concStr(a[1])
			m.ex.violation(m, "assert", s)
			panic(engineAbort{abAssume, "assertion failed"})
		}
		return Value{}, true
	})
	reg(S+"Fail", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s, _ := concStr(a[0])
		m.ex.violation(m, "assert", s)
		panic(engineAbort{abAssume, "fail"})
	})
	reg(S+"Cover", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s, _ := concStr(a[0])
		m.ex.mu.Lock()
		m.ex.res.Covers[s]++
		m.ex.mu.Unlock()
		return Value{}, true
	})
	reg(S+"Param", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s, _ := concStr(a[0])
		if v, ok := m.ex.params[s]; ok {
			return Value{u: uint64(int64(v))}, true
		}
		return a[1], true
	})
	obs := func(kind string) intrinsic {
		return func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
			s, _ := concStr(a[0])
			v := a[1]
			var ti *TypeInfo
			switch kind {
			case "s":
				ti = m.strT
			case "i":
				ti = intTI
			case "b":
				ti = nil
			case "y":
				v = mkStr(m.sliceVals2(a[1]))
				ti = m.strT
			}
			m.obsV = append(m.obsV, obsEnt{s, v, ti})
			return Value{}, true
		}
	}
	reg(S+"ObserveStr", obs("s"))
	reg(S+"ObserveInt", obs("i"))
	reg(S+"ObserveBool", obs("b"))
	reg(S+"ObserveBytes", obs("y"))
	reg(S+"SetMapOrder", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.mapOrder = int(a[0].u)
		m.mapOrderUsed = true
		return Value{}, true
	})
	reg(S+"Freeze", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.freeze(a[0], map[any]bool{})
		return Value{}, true
	})
	reg(S+"Unfreeze", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.unsupported("unfreeze")
		return Value{}, true
	})
	reg(S+"Symbolic", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return bv(true), true })
	reg(S+"Swap", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s := a[0].o.(*Iface).v.o.(*Slice)
		i, j := int(m.concInt(a[1], intTI).u), int(m.concInt(a[2], intTI).u)
		x, y := s.a.e[s.off+i], s.a.e[s.off+j]
		if s.a.elem != nil && s.a.elem.hasAgg {
			xc, yc := m.copyAgg(x.o.(*Agg)), m.copyAgg(y.o.(*Agg))
			m.storeAgg(x.o.(*Agg), yc)
			m.storeAgg(y.o.(*Agg), xc)
			return Value{}, true
		}
		m.setElem(s.a, s.off+i, y)
		m.setElem(s.a, s.off+j, x)
		return Value{}, true
	})
	reg(S+"Len", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s, _ := a[0].o.(*Iface).v.o.(*Slice)
		if s == nil {
			return Value{}, true
		}
		return Value{u: uint64(s.len)}, true
	})

	// --- runtime / sync ---
	reg(`runtime.KeepAlive runtime.SetFinalizer runtime.GC runtime.Gosched
		(*sync.Mutex).Lock (*sync.Mutex).Unlock (*sync.RWMutex).Lock (*sync.RWMutex).Unlock
		(*sync.RWMutex).RLock (*sync.RWMutex).RUnlock (*strings.Builder).copyCheck
		internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange
		(*internal/godebug.Setting).IncNonDefault
		(*sync.WaitGroup).Add (*sync.WaitGroup).Done (*sync.WaitGroup).Wait`, nop)
	reg("(*sync.Mutex).TryLock", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return bv(true), true })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{}, true })
	reg("internal/godebug.New", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return Value{o: m.zero(f.res.elem).o, u: WHOLE}, true
	})
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{u: 1}, true })
	reg("(*sync.Pool).Put", nop)
	reg("(*sync.Pool).Get", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		// New is the last field
		p := a[0].o.(*Agg)
		nf := p.e[len(p.e)-1]
		if nf.o == nil {
			return Value{}, true
		}
		fn, fv := m.closureOf(nf)
		m.pushCall(fn, nil, fv, d)
		return Value{o: framePushed}, false
	})
	atomics()

	// --- bytealg ---
	B := "internal/bytealg."
	reg(B+"IndexByte bytes.IndexByte", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.indexByte(sliceBytes(m, a[0]), a[1]), true
	})
	reg(B+"IndexByteString strings.IndexByte", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.indexByte(strBytes(a[0]), a[1]), true
	})
	reg(B+"LastIndexByte", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.lastIndexByte(sliceBytes(m, a[0]), a[1]), true
	})
	reg(B+"LastIndexByteString", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.lastIndexByte(strBytes(a[0]), a[1]), true
	})
	reg(B+"Count", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.countByte(sliceBytes(m, a[0]), a[1]), true
	})
	reg(B+"CountString", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.countByte(strBytes(a[0]), a[1]), true
	})
	reg(B+"Equal bytes.Equal", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		x, y := sliceBytes(m, a[0]), sliceBytes(m, a[1])
		if len(x) != len(y) {
			return bv(false), true
		}
		return m.boolVal(m.bytesEq(x, y)), true
	})
	reg(B+"Compare bytes.Compare", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.compareBytes(sliceBytes(m, a[0]), sliceBytes(m, a[1])), true
	})
	reg(B+"CompareString strings.Compare", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.compareBytes(strBytes(a[0]), strBytes(a[1])), true
	})
	reg(B+"Index bytes.Index", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.indexSub(sliceBytes(m, a[0]), sliceBytes(m, a[1])), true
	})
	reg(B+"IndexString strings.Index", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.indexSub(strBytes(a[0]), strBytes(a[1])), true
	})
	reg(B+"MakeNoZero", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.newByteSlice(make([]Value, int(a[0].u)), f.res), true
	})
	hasPrefix := func(x, y []Value, m *Machine) Value {
		if len(x) < len(y) {
			return bv(false)
		}
		return m.boolVal(m.bytesEq(x[:len(y)], y))
	}
	hasSuffix := func(x, y []Value, m *Machine) Value {
		if len(x) < len(y) {
			return bv(false)
		}
		return m.boolVal(m.bytesEq(x[len(x)-len(y):], y))
	}
	reg("strings.HasPrefix", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return hasPrefix(strBytes(a[0]), strBytes(a[1]), m), true
	})
	reg("bytes.HasPrefix", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return hasPrefix(sliceBytes(m, a[0]), sliceBytes(m, a[1]), m), true
	})
	reg("strings.HasSuffix", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return hasSuffix(strBytes(a[0]), strBytes(a[1]), m), true
	})
	reg("bytes.HasSuffix", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return hasSuffix(sliceBytes(m, a[0]), sliceBytes(m, a[1]), m), true
	})

	// --- utf8 ---
	reg("unicode/utf8.DecodeRune", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		r, n := m.decodeRune(sliceBytes(m, a[0]))
		return tup(r, Value{u: uint64(n)}), true
	})
	reg("unicode/utf8.DecodeRuneInString", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		r, n := m.decodeRune(strBytes(a[0]))
		return tup(r, Value{u: uint64(n)}), true
	})
	valid := func(m *Machine, b []Value) Value {
		for i := 0; i < len(b); {
			r, n := m.decodeRune(b[i:])
			if n == 1 && r.o == nil && r.u == uint64(utf8.RuneError) {
				return bv(false)
			}
			i += n
		}
		return bv(true)
	}
	reg("unicode/utf8.Valid", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return valid(m, sliceBytes(m, a[0])), true
	})
	reg("unicode/utf8.ValidString", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return valid(m, strBytes(a[0])), true
	})
	cnt := func(m *Machine, b []Value) Value {
		c := 0
		for i := 0; i < len(b); {
			_, n := m.decodeRune(b[i:])
			i += n
			c++
		}
		return Value{u: uint64(c)}
	}
	reg("unicode/utf8.RuneCount", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return cnt(m, sliceBytes(m, a[0])), true
	})
	reg("unicode/utf8.RuneCountInString", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return cnt(m, strBytes(a[0])), true
	})

	// --- math ---
	f1 := func(g func(float64) float64) intrinsic {
		return func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
			return Value{u: math.Float64bits(g(math.Float64frombits(a[0].u)))}, true
		}
	}
	reg("math.Floor math.floor math.archFloor", f1(math.Floor))
	reg("math.Ceil math.ceil math.archCeil", f1(math.Ceil))
	reg("math.Trunc math.trunc math.archTrunc", f1(math.Trunc))
	reg("math.Sqrt math.sqrt", f1(math.Sqrt))
	reg("math.Abs", f1(math.Abs))
	reg("math.Log math.log math.archLog", f1(math.Log))
	reg("math.Exp math.exp math.archExp", f1(math.Exp))
	reg("math.Float64bits", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{u: a[0].u}, true })
	reg("math.Float64frombits", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.concInt(a[0], f.res), true
	})
	reg("math.Float32bits", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return Value{u: uint64(math.Float32bits(float32(math.Float64frombits(a[0].u))))}, true
	})
	reg("math.Float32frombits", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return Value{u: math.Float64bits(float64(math.Float32frombits(uint32(a[0].u))))}, true
	})
	reg("math/bits.Mul64 math/bits.Mul", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		h, l := bits.Mul64(a[0].u, a[1].u)
		return tup(Value{u: h}, Value{u: l}), true
	})
	reg("math/bits.Add64 math/bits.Add", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		h, l := bits.Add64(a[0].u, a[1].u, a[2].u)
		return tup(Value{u: h}, Value{u: l}), true
	})
	reg("math/bits.Sub64 math/bits.Sub", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		h, l := bits.Sub64(a[0].u, a[1].u, a[2].u)
		return tup(Value{u: h}, Value{u: l}), true
	})
	reg("math/bits.Len64 math/bits.Len", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		return Value{u: uint64(bits.Len64(a[0].u))}, true
	})
	reg("math/bits.TrailingZeros64 math/bits.TrailingZeros", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		return Value{u: uint64(bits.TrailingZeros64(a[0].u))}, true
	})
	reg("math/bits.LeadingZeros64 math/bits.LeadingZeros", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		return Value{u: uint64(bits.LeadingZeros64(a[0].u))}, true
	})

	// --- misc ---
	reg("(golang.org/x/text/unicode/norm.Form).String", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		s, ok := concStr(a[1])
		if !ok {
			// NFC is the identity on ASCII-only strings: avoid per-byte forks when provable
			if m.provableASCII(strBytes(a[1])) {
				return a[1], true
			}
			return Value{}, false
		}
		return strVal(norm.Form(a[0].u).String(s)), true
	})
	reg("github.com/agext/levenshtein.Distance", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if allConc(a[:2]) {
			return Value{}, false
		}
		m.ex.cut("levenshtein.Distance on symbolic text (message suggestion only)")
		return Value{u: 1000}, true
	})
	reg("(*fmt.fmt).fmtQ", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if _, ok := concStr(a[1]); ok {
			return Value{}, false
		}
		m.ex.cut("fmt %q of symbolic text (quoting skipped)")
		m.fmtAppend(a[0], strCat(strCat(strVal("\""), a[1]), strVal("\"")))
		return Value{}, true
	})
	reg("strconv.Quote", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return strVal(strconv.Quote(s)), true
		}
		return Value{}, false
	})
	reg("fmt.Sprintf", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.fastSprintf(a)
	})
	reg("fmt.Errorf", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{}, false })
	reg("os.Getenv", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{}, true })
	reg("time.Now", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return m.zero(f.res), true })
	reg("internal/stringslite.Index", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return m.indexSub(strBytes(a[0]), strBytes(a[1])), true
	})
	reg("internal/bytealg.Cutover", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{u: 64}, true })
	reg("errors.New", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return Value{}, false })
}

func (m *Machine) sliceVals2(v Value) []Value {
	s, _ := v.o.(*Slice)
	return m.sliceVals(s)
}

// provableASCII asks whether all bytes are < 0x80 on this path.
func (m *Machine) provableASCII(b []Value) bool {
	c := m.tb.True
	for i := range b {
		if t, ok := b[i].o.(*Term); ok {
			c = m.tb.And(c, m.tb.Bin(OUlt, t, m.tb.Const(0x80, 8)))
		} else if b[i].u >= 0x80 {
			return false
		}
	}
	if c.isConst() {
		return c.k != 0
	}
	if m.eval(c) == 0 {
		return false
	}
	r, _ := m.check(m.tb.Not(c), m.model)
	return r == resUnsat
}

// fmtAppend appends string s to the fmt buffer: (*fmt.fmt).buf is field 0 (*buffer).
func (m *Machine) fmtAppend(fp Value, s Value) {
	fa := fp.o.(*Agg)
	bufp := fa.e[0] // *buffer -> cell
	cell := bufp.o.(*Agg)
	st := m.p.tt.get(m.p.pkgs["fmt"].Pkg.Scope().Lookup("buffer").Type())
	cur := m.load(bufp, st)
	nv := m.appendVals(st, cur, s)
	_ = cell
	m.store(bufp, nv, st)
}

// fastSprintf handles formats whose arguments are plain strings/ints.
func (m *Machine) fastSprintf(a []Value) (Value, bool) {
	format, ok := concStr(a[0])
	if !ok {
		return Value{}, false
	}
	var args []Value
	if s, ok := a[1].o.(*Slice); ok {
		args = s.a.e[s.off : s.off+s.len]
	}
	// every verb must be a simple %s %q %d %v %#v-free
	nat := make([]any, len(args))
	sym := false
	for i, x := range args {
		ifc, ok := x.o.(*Iface)
		if !ok {
			return Value{}, false
		}
		switch ifc.t.kind {
		case KString:
			if ifc.t.named != nil {
				return Value{}, false
			}
			if s, ok := concStr(ifc.v); ok {
				nat[i] = s
			} else {
				sym = true
			}
		case KInt:
			if ifc.t.named != nil || ifc.v.o != nil {
				return Value{}, false
			}
			switch ifc.t.str {
			case "int":
				nat[i] = int(ifc.v.u)
			case "int64":
				nat[i] = int64(ifc.v.u)
			case "int32", "rune":
				nat[i] = int32(ifc.v.u)
			case "uint8", "byte":
				nat[i] = uint8(ifc.v.u)
			default:
				return Value{}, false
			}
		default:
			return Value{}, false
		}
	}
	if !sym {
		return strVal(fmt.Sprintf(format, nat...)), true
	}
	// symbolic strings: only plain %s/%q/%d/%v verbs
	var out Value
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = strCat(out, strVal(format[i:j]))
			i = j
			continue
		}
		if i+1 >= len(format) {
			return Value{}, false
		}
		v := format[i+1]
		if v == '%' {
			out = strCat(out, strVal("%"))
			i += 2
			continue
		}
		if ai >= len(args) {
			return Value{}, false
		}
		ifc := args[ai].o.(*Iface)
		switch {
		case v == 's' || v == 'v':
			if ifc.t.kind == KString {
				out = strCat(out, ifc.v)
			} else if v == 'v' {
				out = strCat(out, strVal(fmt.Sprintf("%v", nat[ai])))
			} else {
				return Value{}, false
			}
		case v == 'd':
			out = strCat(out, strVal(fmt.Sprintf("%d", nat[ai])))
		case v == 'q':
			if _, ok := concStr(ifc.v); ok || ifc.t.kind != KString {
				out = strCat(out, strVal(fmt.Sprintf("%q", nat[ai])))
			} else {
				m.ex.cut("fmt %q of symbolic text (quoting skipped)")
				out = strCat(strCat(out, strVal("\"")), strCat(ifc.v, strVal("\"")))
			}
		default:
			return Value{}, false
		}
		ai++
		i += 2
	}
	if ai != len(args) {
		return Value{}, false
	}
	return out, true
}

func (m *Machine) freeze(v Value, seen map[any]bool) {
	switch x := v.o.(type) {
	case *Agg:
		if seen[x] {
			return
		}
		seen[x] = true
		if !x.frozen {
			x.frozen = true
			m.undo = append(m.undo, undoEnt{kind: uFreezeA, a: x})
		}
		for _, e := range x.e {
			m.freeze(e, seen)
		}
	case *Slice:
		m.freeze(Value{o: x.a}, seen)
	case *MapObj:
		if seen[x] {
			return
		}
		seen[x] = true
		if !x.frozen {
			x.frozen = true
			m.undo = append(m.undo, undoEnt{kind: uFreezeM, m: x})
		}
		for _, e := range x.ents {
			m.freeze(e.k, seen)
			m.freeze(e.v, seen)
		}
	case *Iface:
		m.freeze(x.v, seen)
	case *Closure:
		for _, e := range x.fv {
			m.freeze(e, seen)
		}
	case []Value:
		for _, e := range x {
			m.freeze(e, seen)
		}
	case *SymPtr:
		m.freeze(Value{o: x.a}, seen)
	}
}

func (m *Machine) valText(v Value, ti *TypeInfo) string {
	if ti != nil && ti.kind == KString {
		switch s := v.o.(type) {
		case nil:
			return ""
		case string:
			return s
		case *SymStr:
			b := make([]byte, len(s.b))
			for i := range s.b {
				if t, ok := s.b[i].o.(*Term); ok {
					b[i] = byte(m.eval(t))
				} else {
					b[i] = byte(s.b[i].u)
				}
			}
			return string(b)
		}
	}
	u := v.u
	if t, ok := v.o.(*Term); ok {
		u = m.eval(t)
		if t.w > 0 && t.w < 64 && ti != nil && ti.signed {
			u = uint64(sext(u, t.w))
		}
	}
	if ti == nil {
		if u != 0 {
			return "true"
		}
		return "false"
	}
	return strconv.FormatInt(int64(u), 10)
}

func (m *Machine) obsStrings() []string {
	r := make([]string, len(m.obsV))
	for i, o := range m.obsV {
		r[i] = o.tag + "=" + strconv.Quote(m.valText(o.v, o.t))
	}
	return r
}

func atomics() {
	ld := func(m *Machine, a []Value, f *Func, d int32) (Value, bool) { return m.load(a[0], f.res), true }
	st := func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.store(a[0], a[1], m.p.tt.get(f.fn.Params[1].Type()))
		return Value{}, true
	}
	add := func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		v := m.load(a[0], f.res)
		n := canon(v.u+a[1].u, f.res)
		m.store(a[0], n, f.res)
		return n, true
	}
	swap := func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		v := m.load(a[0], f.res)
		m.store(a[0], a[1], f.res)
		return v, true
	}
	cas := func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		ti := m.p.tt.get(f.fn.Params[1].Type())
		v := m.load(a[0], ti)
		if m.concBool(m.eqVal(ti, v, a[1])) {
			m.store(a[0], a[2], ti)
			return bv(true), true
		}
		return bv(false), true
	}
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Uint8", "Bool"} {
			reg(p+"Load"+t, ld)
			reg(p+"Store"+t, st)
			reg(p+"Add"+t, add)
			reg(p+"Swap"+t, swap)
			reg(p+"CompareAndSwap"+t, cas)
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		return a[0].o.(*Agg).e[0], true
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		m.setElem(a[0].o.(*Agg), 0, a[1])
		return Value{}, true
	})
	// atomic.Pointer[T]
	reg("(*sync/atomic.Pointer[T]).Load", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		g := a[0].o.(*Agg)
		return g.e[len(g.e)-1], true
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(m *Machine, a []Value, f *Func, d int32) (Value, bool) {
		g := a[0].o.(*Agg)
		m.setElem(g, len(g.e)-1, a[1])
		return Value{}, true
	})
}

func init() {
	nop := func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) { return Value{}, true }
	reg("encoding/gob.Register encoding/gob.RegisterName", nop)
}

func init() {
	// Numeric text is concretized (forking over the feasible byte values)
	// before arbitrary-precision parsing.
	conc := func(idx ...int) intrinsic {
		return func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
			for _, i := range idx {
				if _, ok := a[i].o.(*SymStr); ok {
					a[i] = strVal(m.concStrV(a[i]))
				}
			}
			return Value{}, false
		}
	}
	reg("hash/crc32.ChecksumIEEE", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		sl, _ := a[0].o.(*Slice)
		var b []byte
		if sl != nil {
			for i := 0; i < sl.len; i++ {
				v := sl.a.e[sl.off+i]
				if t, ok := v.o.(*Term); ok {
					b = append(b, byte(m.concretize(t)))
				} else {
					b = append(b, byte(v.u))
				}
			}
		}
		return Value{u: uint64(crc32.ChecksumIEEE(b))}, true
	})
	parse := conc(0)
	reg("math/big.ParseFloat", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		parse(m, a, fn, d)
		s, ok := concStr(a[0])
		if !ok || a[1].o != nil || a[2].o != nil || a[3].o != nil {
			return Value{}, false
		}
		f, b, err := big.ParseFloat(s, int(a[1].u), uint(a[2].u), big.RoundingMode(a[3].u))
		if err != nil || f.IsInf() {
			return Value{}, false
		}
		res := m.zero(fn.res).o.([]Value)
		res[0] = m.bigFloatVal(f, fn.res.fields[0].elem)
		res[1] = Value{u: uint64(b)}
		return Value{o: res}, true
	})
	reg("(*math/big.Float).Parse (*math/big.Float).SetString (*math/big.Int).SetString (*math/big.Rat).SetString", conc(1))
	reg("strconv.ParseFloat strconv.ParseInt strconv.ParseUint strconv.Atoi", conc(0))
}

// bigFloat converts an interpreted *big.Float with concrete contents.
func bigFloat(p Value) (*big.Float, bool) {
	a, ok := p.o.(*Agg)
	if !ok || p.u != WHOLE || len(a.e) != 7 {
		return nil, false
	}
	for _, i := range []int{0, 1, 2, 3, 4, 6} {
		if a.e[i].o != nil {
			return nil, false
		}
	}
	f := new(big.Float).SetPrec(uint(a.e[0].u)).SetMode(big.RoundingMode(a.e[1].u))
	neg := a.e[4].u != 0
	switch a.e[3].u {
	case 0:
		if neg {
			f.Neg(f)
		}
		return f, true
	case 1:
	default:
		f.SetInf(neg)
		return f, true
	}
	sl, _ := a.e[5].o.(*Slice)
	if sl == nil {
		return nil, false
	}
	words := make([]big.Word, sl.len)
	for i := range words {
		v := sl.a.e[sl.off+i]
		if v.o != nil {
			return nil, false
		}
		words[i] = big.Word(v.u)
	}
	f.SetInt(new(big.Int).SetBits(words))
	f.SetMantExp(f, int(int32(a.e[6].u))-64*len(words))
	if neg {
		f.Neg(f)
	}
	return f, true
}

func init() {
	// the text of a concrete number is computed directly
	reg("(*math/big.Float).Text", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if f, ok := bigFloat(a[0]); ok && a[1].o == nil && a[2].o == nil {
			return strVal(f.Text(byte(a[1].u), int(a[2].u))), true
		}
		return Value{}, false
	})
}

// bigFloatVal makes an interpreted *big.Float of a finite number.
func (m *Machine) bigFloatVal(f *big.Float, ti *TypeInfo) Value {
	v := m.zero(ti)
	e := v.o.(*Agg).e
	e[0] = Value{u: uint64(f.Prec())}
	e[1] = Value{u: uint64(f.Mode())}
	e[2] = Value{u: uint64(int64(f.Acc()))}
	if f.Signbit() {
		e[4] = Value{u: 1}
	}
	if f.Sign() != 0 {
		e[3] = Value{u: 1}
		// the mantissa is left-aligned in whole words without low zero words
		mant := new(big.Float).SetPrec(f.Prec())
		exp := f.MantExp(mant)
		n := (int(f.Prec()) + 63) / 64
		mant.SetMantExp(mant.Abs(mant), 64*n)
		i, _ := mant.Int(nil)
		words := i.Bits()
		for len(words) > 0 && words[0] == 0 {
			words = words[1:]
		}
		a := m.newArr(ti.fields[5].elem, len(words), nil)
		for k, w := range words {
			a.e[k] = Value{u: uint64(w)}
		}
		e[5] = Value{o: &Slice{a: a, len: len(words), cap: len(words)}}
		e[6] = Value{u: uint64(int64(exp))}
	}
	v.u = WHOLE
	return v
}
