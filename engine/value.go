package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the engine's representation of any Go value.
//
//	scalar ints/bools: concrete -> u (canonical extension), o==nil
//	                   symbolic -> o is *Term
//	floats:            u holds math.Float64bits (or float32 widened), o==nil
//	strings:           o is string (concrete), *SymStr, or nil for ""
//	pointers:          o is *Agg (cell), u is element index or WHOLE; nil ptr o==nil
//	                   or o is *SymPtr (symbolic element index)
//	slices:            o is *Slice or nil
//	maps:              o is *MapObj or nil
//	interfaces:        o is *Iface or nil
//	funcs:             o is *Closure / *Func or nil
//	structs/arrays:    o is *Agg
//	tuples:            o is []Value
type Value struct {
	u uint64
	o any
}

const WHOLE = ^uint64(0)

type Agg struct {
	e      []Value
	epoch  uint32
	frozen bool
	elem   *TypeInfo // element type for arrays/backing stores (may be nil)
	ty     *TypeInfo // struct/array type when known
	lab    int
}

type SymStr struct{ b []Value } // each byte: concrete u or *Term of width 8

type SymPtr struct {
	a   *Agg
	off int
	n   int
	idx *Term // 64-bit, known < n on this path
}

type Slice struct {
	a             *Agg
	off, len, cap int
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Closure struct {
	fn *Func
	fv []Value
}

type MapObj struct {
	idx    map[any]int // concrete keys -> entry
	ents   []mapEnt
	live   int
	nsym   int // number of entries with symbolic keys
	frozen bool
	kt, vt *TypeInfo
	epoch  uint32
}

type mapEnt struct {
	k, v Value
	dead bool
}

type mapIter struct {
	m    *MapObj
	pos  int
	perm []int
}

type strIter struct {
	b   []Value
	s   string
	sym bool
	pos int
}

// Kind classification for TypeInfo
type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KIface
	KFunc
	KChan
	KTuple
	KUnsafePtr
)

type TypeInfo struct {
	id      int
	t       types.Type
	under   types.Type
	kind    Kind
	w       uint8
	signed  bool
	elem    *TypeInfo
	key     *TypeInfo
	n       int // array length
	fields  []*TypeInfo
	named   *types.Named
	hasAgg  bool
	size    int64
	methods sync.Map // key string -> *Func
	impl    sync.Map // *TypeInfo (iface) -> bool
	str     string
	simple  bool // struct/array has only non-aggregate elements
}

type typeTable struct {
	mu   sync.Mutex
	m    typeutil.Map
	fast sync.Map // types.Type -> *TypeInfo
	n    int
	all  []*TypeInfo
}

var stdSizes = types.SizesFor("gc", "amd64")

func (tt *typeTable) get(t types.Type) *TypeInfo {
	if v, ok := tt.fast.Load(t); ok {
		return v.(*TypeInfo)
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.getL(t)
}

func (tt *typeTable) getL(t types.Type) *TypeInfo {
	if v, ok := tt.fast.Load(t); ok {
		return v.(*TypeInfo)
	}
	t0 := t
	t = types.Unalias(t)
	if v := tt.m.At(t); v != nil {
		ti := v.(*TypeInfo)
		tt.fast.Store(t0, ti)
		return ti
	}
	ti := &TypeInfo{t: t, under: t.Underlying()}
	tt.n++
	ti.id = tt.n
	tt.m.Set(t, ti)
	ti.str = types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if n, ok := t.(*types.Named); ok {
		ti.named = n
	}
	switch u := ti.under.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			ti.kind = KUnsafePtr
		case u.Info()&types.IsBoolean != 0:
			ti.kind = KBool
		case u.Info()&types.IsInteger != 0:
			ti.kind = KInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			if u.Kind() == types.UntypedInt {
				ti.w = 64
			} else if u.Kind() == types.UntypedRune {
				ti.w = 32
			} else {
				ti.w = uint8(stdSizes.Sizeof(u) * 8)
			}
		case u.Info()&types.IsFloat != 0:
			ti.kind = KFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.kind = KComplex
		case u.Info()&types.IsString != 0:
			ti.kind = KString
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tt.getL(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tt.getL(u.Elem())
	case *types.Array:
		ti.kind = KArray
		ti.elem = tt.getL(u.Elem())
		ti.n = int(u.Len())
		ti.hasAgg = true
		ti.simple = !ti.elem.hasAgg
	case *types.Struct:
		ti.kind = KStruct
		ti.hasAgg = true
		ti.simple = true
		for i := 0; i < u.NumFields(); i++ {
			f := tt.getL(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			if f.kind == KStruct || f.kind == KArray {
				ti.simple = false
			}
		}
	case *types.Map:
		ti.kind = KMap
		ti.key = tt.getL(u.Key())
		ti.elem = tt.getL(u.Elem())
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tt.getL(u.Elem())
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.getL(u.At(i).Type()))
		}
	default:
		ti.kind = KInvalid
	}
	if ti.kind != KInvalid && ti.kind != KTuple {
		func() {
			defer func() { recover() }()
			ti.size = stdSizes.Sizeof(t)
		}()
	}
	tt.all = append(tt.all, ti)
	tt.fast.Store(t0, ti)
	tt.fast.Store(t, ti)
	return ti
}

func (ti *TypeInfo) isAgg() bool { return ti.hasAgg }

func (ti *TypeInfo) isEmptyIface() bool {
	it, ok := ti.under.(*types.Interface)
	return ok && it.NumMethods() == 0
}

func (ti *TypeInfo) String() string { return ti.str }

// zero returns the zero value for a type (fresh aggregates).
func (m *Machine) zero(ti *TypeInfo) Value {
	switch ti.kind {
	case KStruct:
		a := &Agg{e: make([]Value, len(ti.fields)), epoch: m.epoch, ty: ti}
		if !ti.simple {
			for i, f := range ti.fields {
				if f.hasAgg {
					a.e[i] = m.zero(f)
				}
			}
		}
		return Value{o: a}
	case KArray:
		return Value{o: m.newArr(ti.elem, ti.n, ti)}
	case KTuple:
		vs := make([]Value, len(ti.fields))
		for i, f := range ti.fields {
			vs[i] = m.zero(f)
		}
		return Value{o: vs}
	}
	return Value{}
}

func (m *Machine) newArr(elem *TypeInfo, n int, ty *TypeInfo) *Agg {
	a := &Agg{e: make([]Value, n), epoch: m.epoch, elem: elem, ty: ty}
	if elem != nil && elem.hasAgg {
		for i := range a.e {
			a.e[i] = m.zero(elem)
		}
	}
	return a
}

// copyAgg deep copies an aggregate value (nested aggregates included).
func (m *Machine) copyAgg(a *Agg) *Agg {
	n := &Agg{e: make([]Value, len(a.e)), epoch: m.epoch, elem: a.elem, ty: a.ty}
	copy(n.e, a.e)
	if a.ty != nil && a.ty.simple {
		return n
	}
	if a.ty != nil && a.ty.kind == KStruct {
		for i, f := range a.ty.fields {
			if f.hasAgg {
				n.e[i].o = m.copyAgg(a.e[i].o.(*Agg))
			}
		}
		return n
	}
	if a.elem != nil && a.elem.hasAgg {
		for i := range n.e {
			n.e[i].o = m.copyAgg(a.e[i].o.(*Agg))
		}
	}
	return n
}

func (m *Machine) copyVal(v Value, ti *TypeInfo) Value {
	if ti.hasAgg {
		return Value{o: m.copyAgg(v.o.(*Agg))}
	}
	return v
}

// ---- string helpers ----

func isSymStr(v Value) bool { _, ok := v.o.(*SymStr); return ok }

func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.o))
}

func strAt(v Value, i int) Value {
	switch s := v.o.(type) {
	case string:
		return Value{u: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].u = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v.o))
}

// mkStr builds a string value from bytes (which must not be mutated later).
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].o != nil {
			return Value{o: &SymStr{b: b}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	s := make([]byte, len(b))
	for i := range b {
		s[i] = byte(b[i].u)
	}
	return Value{o: string(s)}
}

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: s}
}

func concStr(v Value) (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strSub(v Value, lo, hi int) Value {
	switch s := v.o.(type) {
	case nil:
		return v
	case string:
		return strVal(s[lo:hi])
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSub")
}

func strCat(a, b Value) Value {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	sa, ok1 := a.o.(string)
	sb, ok2 := b.o.(string)
	if ok1 && ok2 {
		return Value{o: sa + sb}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Value{o: &SymStr{b: r}}
}

// Func is a compiled function.
type Func struct {
	id     int
	fn     *ssa.Function
	name   string
	code   []Instr
	nregs  int
	nparam int
	nfv    int
	compd  bool
	intr   intrinsic
	isInit bool
	rec    *edge // recover block
	mu     sync.Mutex
	res    *TypeInfo // result type (tuple or single) or nil
	inRepo bool
	hits   int64
	consts []constEnt
	blks   []blockInfo
	rtys   []*TypeInfo
}
