package main

import (
	"go/types"
	"math"
	"reflect"
	"strconv"
)

// rv is the payload of an interpreted reflect.Value.
type rv struct {
	v    Value // value when not addressable
	addr Value // pointer when addressable
	can  bool  // addressable
	ro   bool  // obtained via unexported field
}

func (m *Machine) rtypeAgg(ti *TypeInfo) *Agg {
	a := m.rtypes[ti]
	if a == nil {
		a = &Agg{e: []Value{{o: ti}}}
		m.rtypes[ti] = a
	}
	return a
}

func tiOf(v Value) *TypeInfo {
	if v.o == nil {
		return nil
	}
	a := v.o.(*Agg)
	t, _ := a.e[0].o.(*TypeInfo)
	return t
}

// rtype returns a reflect.Type interface value.
func (m *Machine) rtype(ti *TypeInfo) Value {
	if ti == nil {
		return Value{}
	}
	pt := m.p.tt.get(types.NewPointer(m.p.pkgs["reflect"].Pkg.Scope().Lookup("rtype").Type()))
	return Value{o: &Iface{t: pt, v: Value{o: m.rtypeAgg(ti), u: WHOLE}}}
}

func ifaceTI(v Value) *TypeInfo {
	if v.o == nil {
		return nil
	}
	return tiOf(v.o.(*Iface).v)
}

func (m *Machine) mkRV(ti *TypeInfo, r *rv) Value {
	a := &Agg{e: make([]Value, 3), epoch: m.epoch, ty: m.p.rvalT}
	if ti != nil {
		a.e[0].o = ti
		a.e[1].o = r
	}
	return Value{o: a}
}

func (m *Machine) rvOf(v Value) (*TypeInfo, *rv) {
	a := v.o.(*Agg)
	ti, _ := a.e[0].o.(*TypeInfo)
	if ti == nil {
		return nil, nil
	}
	return ti, a.e[1].o.(*rv)
}

// rget loads the current value.
func (m *Machine) rget(ti *TypeInfo, r *rv) Value {
	if r.can {
		return m.load(r.addr, ti)
	}
	return r.v
}

func kindOf(ti *TypeInfo) reflect.Kind {
	if ti == nil {
		return reflect.Invalid
	}
	switch ti.kind {
	case KBool:
		return reflect.Bool
	case KString:
		return reflect.String
	case KPtr:
		return reflect.Ptr
	case KSlice:
		return reflect.Slice
	case KArray:
		return reflect.Array
	case KStruct:
		return reflect.Struct
	case KMap:
		return reflect.Map
	case KIface:
		return reflect.Interface
	case KFunc:
		return reflect.Func
	case KChan:
		return reflect.Chan
	case KUnsafePtr:
		return reflect.UnsafePointer
	case KFloat:
		if ti.w == 32 {
			return reflect.Float32
		}
		return reflect.Float64
	case KComplex:
		return reflect.Complex128
	case KInt:
		switch ti.under.(*types.Basic).Kind() {
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		}
	}
	return reflect.Invalid
}

func (ti *TypeInfo) rname() string {
	if ti.named != nil {
		return ti.named.Obj().Name()
	}
	if b, ok := ti.t.(*types.Basic); ok {
		return b.Name()
	}
	return ""
}

func rstring(ti *TypeInfo) string {
	return types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
}

func (m *Machine) ifaceOf(ti *TypeInfo, v Value) Value {
	if ti.kind == KIface {
		return v
	}
	return Value{o: &Iface{t: ti, v: v}}
}

func (m *Machine) structField(ti *TypeInfo, i int) Value {
	sft := m.p.tt.get(m.p.pkgs["reflect"].Pkg.Scope().Lookup("StructField").Type())
	st := ti.under.(*types.Struct)
	f := st.Field(i)
	a := m.zero(sft).o.(*Agg)
	ut := sft.under.(*types.Struct)
	for k := 0; k < ut.NumFields(); k++ {
		switch ut.Field(k).Name() {
		case "Name":
			a.e[k] = strVal(f.Name())
		case "PkgPath":
			if !f.Exported() {
				a.e[k] = strVal(f.Pkg().Path())
			}
		case "Type":
			a.e[k] = m.rtype(ti.fields[i])
		case "Tag":
			a.e[k] = strVal(st.Tag(i))
		case "Index":
			a.e[k] = Value{o: &Slice{a: &Agg{e: []Value{{u: uint64(i)}}, epoch: m.epoch, elem: intTI}, len: 1, cap: 1}}
		case "Anonymous":
			a.e[k] = bv(f.Anonymous())
		case "Offset":
			a.e[k] = Value{u: uint64(i)}
		}
	}
	return Value{o: a}
}

func (m *Machine) rfield(ti *TypeInfo, r *rv, i int) Value {
	ft := ti.fields[i]
	st := ti.under.(*types.Struct)
	ro := r.ro || !st.Field(i).Exported()
	if r.can {
		base := r.addr.o.(*Agg)
		if r.addr.u != WHOLE {
			base = base.e[r.addr.u].o.(*Agg)
		}
		if ft.hasAgg {
			return m.mkRV(ft, &rv{addr: Value{o: base.e[i].o, u: WHOLE}, can: true, ro: ro})
		}
		return m.mkRV(ft, &rv{addr: Value{o: base, u: uint64(i)}, can: true, ro: ro})
	}
	return m.mkRV(ft, &rv{v: r.v.o.(*Agg).e[i], ro: ro})
}

func (m *Machine) relem(a *Agg, i int, et *TypeInfo) *rv {
	if et.hasAgg {
		return &rv{addr: Value{o: a.e[i].o, u: WHOLE}, can: true}
	}
	return &rv{addr: Value{o: a, u: uint64(i)}, can: true}
}

func (m *Machine) assignTo(v Value, from, to *TypeInfo) Value {
	if to.kind == KIface && from.kind != KIface {
		return Value{o: &Iface{t: from, v: v}}
	}
	return v
}

func (m *Machine) rpanic(msg string) {
	v := Value{o: &Iface{t: m.strT, v: strVal(msg)}}
	panic(goPanic{&Panic{val: v}})
}

func (m *Machine) isZero(ti *TypeInfo, v Value) *Term {
	switch ti.kind {
	case KStruct:
		t := m.tb.True
		for i, f := range ti.fields {
			t = m.tb.And(t, m.isZero(f, v.o.(*Agg).e[i]))
		}
		return t
	case KArray:
		t := m.tb.True
		for _, e := range v.o.(*Agg).e {
			t = m.tb.And(t, m.isZero(ti.elem, e))
		}
		return t
	case KInt, KBool:
		return m.tb.Eq(m.toTerm(v, ti.w), m.tb.Const(0, ti.w))
	case KString:
		return m.tb.Bool(strLen(v) == 0)
	case KFloat:
		return m.tb.Bool(v.u == 0)
	}
	return m.tb.Bool(v.o == nil)
}

func init() {
	type I = intrinsic
	typeM := func(name string, f func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value) {
		w := func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
			if a[0].o == nil {
				m.throw("invalid memory address or nil pointer dereference")
			}
			return f(m, tiOf(a[0]), a, fn), true
		}
		reg("(*reflect.rtype)."+name, w)
		reg("(internal/reflectlite.rtype)."+name, w)
	}
	reg("reflect.TypeOf", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if a[0].o == nil {
			return Value{}, true
		}
		return m.rtype(a[0].o.(*Iface).t), true
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if a[0].o == nil {
			return Value{}, true
		}
		rt := m.p.tt.get(m.p.pkgs["internal/reflectlite"].Pkg.Scope().Lookup("rtype").Type())
		return Value{o: &Iface{t: rt, v: Value{o: m.rtypeAgg(a[0].o.(*Iface).t)}}}, true
	})
	reg("reflect.TypeAssert", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, r := m.rvOf(a[0])
		if ti == nil {
			m.rpanic("reflect: call of reflect.TypeAssert on zero Value")
		}
		in := &Instr{xty: m.p.tt.get(fn.fn.TypeArgs()[0]), commaOk: true}
		return m.typeAssert(in, m.ifaceOf(ti, m.rget(ti, r))), true
	})
	reg("reflect.TypeFor", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		return m.rtype(m.p.tt.get(fn.fn.TypeArgs()[0])), true
	})
	typeM("Elem", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		if ti.elem == nil {
			m.rpanic("reflect: Elem of invalid type " + rstring(ti))
		}
		if fn.fn.Pkg != nil && fn.fn.Pkg.Pkg.Path() == "internal/reflectlite" {
			rt := m.p.tt.get(m.p.pkgs["internal/reflectlite"].Pkg.Scope().Lookup("rtype").Type())
			return Value{o: &Iface{t: rt, v: Value{o: m.rtypeAgg(ti.elem)}}}
		}
		return m.rtype(ti.elem)
	})
	typeM("Kind", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return Value{u: uint64(kindOf(ti))} })
	typeM("Key", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return m.rtype(ti.key) })
	typeM("Len", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return Value{u: uint64(ti.n)} })
	typeM("NumField", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		if ti.kind != KStruct {
			m.rpanic("reflect: NumField of non-struct type " + rstring(ti))
		}
		return Value{u: uint64(len(ti.fields))}
	})
	typeM("Field", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		if ti.kind != KStruct {
			m.rpanic("reflect: Field of non-struct type " + rstring(ti))
		}
		return m.structField(ti, int(a[1].u))
	})
	typeM("Name", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return strVal(ti.rname()) })
	typeM("String", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return strVal(rstring(ti)) })
	typeM("PkgPath", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		if ti.named != nil && ti.named.Obj().Pkg() != nil {
			return strVal(ti.named.Obj().Pkg().Path())
		}
		return Value{}
	})
	typeM("Size", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return Value{u: uint64(ti.size)} })
	typeM("Bits", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return Value{u: uint64(ti.size * 8)} })
	typeM("Comparable", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value { return bv(comparableT(ti)) })
	typeM("NumMethod", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		ms := types.NewMethodSet(ti.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return Value{u: uint64(n)}
	})
	typeM("Implements", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		it := ifaceTI(a[1])
		return bv(m.p.implements(ti, it))
	})
	typeM("AssignableTo", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		return bv(types.AssignableTo(ti.t, ifaceTI(a[1]).t))
	})
	typeM("ConvertibleTo", func(m *Machine, ti *TypeInfo, a []Value, fn *Func) Value {
		return bv(types.ConvertibleTo(ti.t, ifaceTI(a[1]).t))
	})
	reg("reflect.PtrTo reflect.PointerTo", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		return m.rtype(m.p.tt.get(types.NewPointer(ifaceTI(a[0]).t))), true
	})
	reg("reflect.SliceOf", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		return m.rtype(m.p.tt.get(types.NewSlice(ifaceTI(a[0]).t))), true
	})
	reg("reflect.MapOf", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		return m.rtype(m.p.tt.get(types.NewMap(ifaceTI(a[0]).t, ifaceTI(a[1]).t))), true
	})
	reg("reflect.ValueOf", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if a[0].o == nil {
			return m.mkRV(nil, nil), true
		}
		ifc := a[0].o.(*Iface)
		return m.mkRV(ifc.t, &rv{v: ifc.v}), true
	})
	reg("reflect.New", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti := ifaceTI(a[0])
		pt := m.p.tt.get(types.NewPointer(ti.t))
		return m.mkRV(pt, &rv{v: m.newPtr(ti)}), true
	})
	reg("reflect.Zero", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti := ifaceTI(a[0])
		return m.mkRV(ti, &rv{v: m.zero(ti)}), true
	})
	reg("reflect.MakeSlice", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti := ifaceTI(a[0])
		n, c := int(a[1].u), int(a[2].u)
		return m.mkRV(ti, &rv{v: Value{o: &Slice{a: m.newArr(ti.elem, c, nil), len: n, cap: c}}}), true
	})
	mkmap := func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti := ifaceTI(a[0])
		return m.mkRV(ti, &rv{v: Value{o: m.newMap(ti)}}), true
	}
	reg("reflect.MakeMap reflect.MakeMapWithSize", mkmap)
	reg("reflect.Indirect", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, r := m.rvOf(a[0])
		if ti == nil || ti.kind != KPtr {
			return a[0], true
		}
		v := m.rget(ti, r)
		if v.o == nil {
			return m.mkRV(nil, nil), true
		}
		return m.mkRV(ti.elem, &rv{addr: v, can: true}), true
	})
	reg("reflect.Append", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, r := m.rvOf(a[0])
		v := m.rget(ti, r)
		for _, x := range sliceBytes(m, a[1]) {
			xt, xr := m.rvOf(x)
			xv := m.assignTo(m.rget(xt, xr), xt, ti.elem)
			one := Value{o: &Slice{a: &Agg{e: []Value{xv}, elem: ti.elem, epoch: m.epoch}, len: 1, cap: 1}}
			v = m.appendVals(ti, v, one)
		}
		return m.mkRV(ti, &rv{v: v}), true
	})

	V := func(name string, f func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value) {
		reg("(reflect.Value)."+name, func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
			ti, r := m.rvOf(a[0])
			if ti == nil {
				m.rpanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(m, ti, r, a, fn), true
		})
	}
	reg("(reflect.Value).IsValid", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, _ := m.rvOf(a[0])
		return bv(ti != nil), true
	})
	reg("(reflect.Value).Kind", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, _ := m.rvOf(a[0])
		return Value{u: uint64(kindOf(ti))}, true
	})
	V("Type", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return m.rtype(ti) })
	V("Interface", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if r.ro {
			m.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.ifaceOf(ti, m.rget(ti, r))
	})
	V("CanInterface", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return bv(!r.ro) })
	V("CanSet", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return bv(r.can && !r.ro) })
	V("CanAddr", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return bv(r.can) })
	V("Addr", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if !r.can {
			m.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return m.mkRV(m.p.tt.get(types.NewPointer(ti.t)), &rv{v: r.addr, ro: r.ro})
	})
	V("Elem", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		v := m.rget(ti, r)
		switch ti.kind {
		case KPtr:
			if v.o == nil {
				return m.mkRV(nil, nil)
			}
			return m.mkRV(ti.elem, &rv{addr: v, can: true, ro: r.ro})
		case KIface:
			if v.o == nil {
				return m.mkRV(nil, nil)
			}
			ifc := v.o.(*Iface)
			return m.mkRV(ifc.t, &rv{v: ifc.v, ro: r.ro})
		}
		m.rpanic("reflect: call of reflect.Value.Elem on " + kindOf(ti).String() + " Value")
		return Value{}
	})
	V("NumField", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if ti.kind != KStruct {
			m.rpanic("reflect: call of reflect.Value.NumField on " + kindOf(ti).String() + " Value")
		}
		return Value{u: uint64(len(ti.fields))}
	})
	V("Field", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		return m.rfield(ti, r, int(a[1].u))
	})
	V("Index", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		i := int(m.concInt(a[1], intTI).u)
		switch ti.kind {
		case KSlice:
			s, _ := m.rget(ti, r).o.(*Slice)
			if s == nil || i < 0 || i >= s.len {
				m.rpanic("reflect: slice index out of range")
			}
			e := m.relem(s.a, s.off+i, ti.elem)
			e.ro = r.ro
			return m.mkRV(ti.elem, e)
		case KArray:
			if r.can {
				return m.mkRV(ti.elem, m.relem(r.addr.o.(*Agg), i, ti.elem))
			}
			return m.mkRV(ti.elem, &rv{v: r.v.o.(*Agg).e[i], ro: r.ro})
		case KString:
			return m.mkRV(m.p.tt.get(types.Typ[types.Uint8]), &rv{v: strAt(m.rget(ti, r), i), ro: r.ro})
		}
		m.unsupported("reflect Index on %s", ti)
		return Value{}
	})
	V("Len", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		v := m.rget(ti, r)
		switch ti.kind {
		case KSlice:
			if s, ok := v.o.(*Slice); ok {
				return Value{u: uint64(s.len)}
			}
			return Value{}
		case KString:
			return Value{u: uint64(strLen(v))}
		case KMap:
			if s, ok := v.o.(*MapObj); ok {
				return Value{u: uint64(s.live)}
			}
			return Value{}
		case KArray:
			return Value{u: uint64(ti.n)}
		}
		m.rpanic("reflect: call of reflect.Value.Len on " + kindOf(ti).String() + " Value")
		return Value{}
	})
	V("Cap", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if s, ok := m.rget(ti, r).o.(*Slice); ok {
			return Value{u: uint64(s.cap)}
		}
		return Value{u: uint64(ti.n)}
	})
	V("IsNil", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		switch ti.kind {
		case KPtr, KSlice, KMap, KIface, KFunc, KChan, KUnsafePtr:
			return bv(m.rget(ti, r).o == nil)
		}
		m.rpanic("reflect: call of reflect.Value.IsNil on " + kindOf(ti).String() + " Value")
		return Value{}
	})
	V("IsZero", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		return m.boolVal(m.isZero(ti, m.rget(ti, r)))
	})
	V("Set", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if !r.can || r.ro {
			m.rpanic("reflect.Set: value not settable")
		}
		xt, xr := m.rvOf(a[1])
		if xt == nil {
			m.rpanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if xt != ti && !types.AssignableTo(xt.t, ti.t) {
			m.rpanic("reflect.Set: value of type " + rstring(xt) + " is not assignable to type " + rstring(ti))
		}
		m.store(r.addr, m.assignTo(m.rget(xt, xr), xt, ti), ti)
		return Value{}
	})
	setScalar := func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if !r.can || r.ro {
			m.rpanic("reflect.Set: value not settable")
		}
		v := a[1]
		if ti.kind == KInt {
			if t, ok := v.o.(*Term); ok {
				v = m.fromTerm(m.tb.Trunc(t, ti.w), ti)
			} else {
				v = canon(v.u, ti)
			}
		}
		if ti.kind == KFloat && ti.w == 32 {
			v = Value{u: math.Float64bits(float64(float32(math.Float64frombits(v.u))))}
		}
		m.store(r.addr, v, ti)
		return Value{}
	}
	for _, n := range []string{"SetString", "SetInt", "SetUint", "SetFloat", "SetBool", "SetBytes"} {
		V(n, setScalar)
	}
	V("SetZero", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		m.store(r.addr, m.zero(ti), ti)
		return Value{}
	})
	V("SetLen", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		s := *m.rget(ti, r).o.(*Slice)
		s.len = int(a[1].u)
		m.store(r.addr, Value{o: &s}, ti)
		return Value{}
	})
	V("Grow", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		v := m.rget(ti, r)
		s, _ := v.o.(*Slice)
		n := int(a[1].u)
		ln, cp := 0, 0
		if s != nil {
			ln, cp = s.len, s.cap
		}
		if ln+n <= cp {
			return Value{}
		}
		nc := growCap(cp, ln+n, ti.elem.size)
		na := m.newArr(ti.elem, nc, nil)
		for i := 0; i < ln; i++ {
			na.e[i] = m.copyVal(s.a.e[s.off+i], ti.elem)
		}
		m.store(r.addr, Value{o: &Slice{a: na, len: ln, cap: nc}}, ti)
		return Value{}
	})
	V("Int", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		v := m.rget(ti, r)
		if t, ok := v.o.(*Term); ok {
			return m.fromTerm(m.tb.Sext(t, 64), intTI)
		}
		return v
	})
	V("Uint", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		v := m.rget(ti, r)
		if t, ok := v.o.(*Term); ok {
			return m.fromTerm(m.tb.Zext(t, 64), fn.res)
		}
		return v
	})
	V("Float", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return m.rget(ti, r) })
	V("Bool", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return m.rget(ti, r) })
	V("Bytes", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return m.rget(ti, r) })
	reg("(reflect.Value).String", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		ti, r := m.rvOf(a[0])
		if ti == nil {
			return strVal("<invalid Value>"), true
		}
		if ti.kind == KString {
			return m.rget(ti, r), true
		}
		return strVal("<" + rstring(ti) + " Value>"), true
	})
	V("NumMethod", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		ms := types.NewMethodSet(ti.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return Value{u: uint64(n)}
	})
	V("MapIndex", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		mo, _ := m.rget(ti, r).o.(*MapObj)
		if mo == nil {
			return m.mkRV(nil, nil)
		}
		kt, kr := m.rvOf(a[1])
		e := m.mapFind(mo, m.assignTo(m.rget(kt, kr), kt, ti.key))
		if e < 0 {
			return m.mkRV(nil, nil)
		}
		return m.mkRV(ti.elem, &rv{v: mo.ents[e].v})
	})
	V("SetMapIndex", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		mo, _ := m.rget(ti, r).o.(*MapObj)
		kt, kr := m.rvOf(a[1])
		k := m.assignTo(m.rget(kt, kr), kt, ti.key)
		et, er := m.rvOf(a[2])
		if et == nil {
			if mo != nil {
				m.mapDelete(mo, k)
			}
			return Value{}
		}
		if mo == nil {
			m.throw("assignment to entry in nil map")
		}
		m.mapSet(mo, k, m.assignTo(m.rget(et, er), et, ti.elem))
		return Value{}
	})
	V("MapKeys", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		mo, _ := m.rget(ti, r).o.(*MapObj)
		var out []Value
		if mo != nil {
			for i := range mo.ents {
				if !mo.ents[i].dead {
					out = append(out, m.mkRV(ti.key, &rv{v: mo.ents[i].k}))
				}
			}
		}
		return Value{o: &Slice{a: &Agg{e: out, epoch: m.epoch, elem: m.p.rvalT}, len: len(out), cap: len(out)}}
	})
	V("MapRange", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		mo, _ := m.rget(ti, r).o.(*MapObj)
		it := m.newPtr(fn.res.elem)
		ag := it.o.(*Agg)
		ag.e[0] = a[0]
		ag.e[1] = Value{o: &rmapIter{mo: mo, ti: ti, pos: &Agg{e: []Value{{u: ^uint64(0)}}, epoch: m.epoch}}}
		return it
	})
	reg("(*reflect.MapIter).Next", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		it := a[0].o.(*Agg).e[1].o.(*rmapIter)
		p := int(it.pos.e[0].u) + 1
		if it.mo != nil {
			for ; p < len(it.mo.ents); p++ {
				if !it.mo.ents[p].dead {
					m.setElem(it.pos, 0, Value{u: uint64(p)})
					return bv(true), true
				}
			}
		}
		return bv(false), true
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		it := a[0].o.(*Agg).e[1].o.(*rmapIter)
		return m.mkRV(it.ti.key, &rv{v: it.mo.ents[it.pos.e[0].u].k}), true
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		it := a[0].o.(*Agg).e[1].o.(*rmapIter)
		return m.mkRV(it.ti.elem, &rv{v: it.mo.ents[it.pos.e[0].u].v}), true
	})
	V("SetIterKey", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		it := a[1].o.(*Agg).e[1].o.(*rmapIter)
		m.store(r.addr, m.assignTo(it.mo.ents[it.pos.e[0].u].k, it.ti.key, ti), ti)
		return Value{}
	})
	V("SetIterValue", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		it := a[1].o.(*Agg).e[1].o.(*rmapIter)
		m.store(r.addr, m.assignTo(it.mo.ents[it.pos.e[0].u].v, it.ti.elem, ti), ti)
		return Value{}
	})
	V("Convert", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		to := ifaceTI(a[1])
		v := m.rget(ti, r)
		if to.kind == KIface {
			return m.mkRV(to, &rv{v: m.assignTo(v, ti, to)})
		}
		return m.mkRV(to, &rv{v: m.convert(v, ti, to)})
	})
	V("Slice", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		lo, hi := int(a[1].u), int(a[2].u)
		v := m.rget(ti, r)
		if ti.kind == KString {
			return m.mkRV(ti, &rv{v: strSub(v, lo, hi)})
		}
		s := v.o.(*Slice)
		return m.mkRV(ti, &rv{v: Value{o: &Slice{a: s.a, off: s.off + lo, len: hi - lo, cap: s.cap - lo}}})
	})
	V("Pointer", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		if m.rget(ti, r).o == nil {
			return Value{}
		}
		return Value{u: 0xdeadbeef}
	})
	V("UnsafePointer", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		return m.rget(ti, r)
	})
	V("Comparable", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value { return bv(comparableT(ti)) })
	V("OverflowInt", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		x := m.toTerm(a[1], 64)
		t := m.tb.Sext(m.tb.Trunc(x, ti.w), 64)
		return m.boolVal(m.tb.Not(m.tb.Eq(x, t)))
	})
	V("OverflowUint", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		x := m.toTerm(a[1], 64)
		t := m.tb.Zext(m.tb.Trunc(x, ti.w), 64)
		return m.boolVal(m.tb.Not(m.tb.Eq(x, t)))
	})
	V("OverflowFloat", func(m *Machine, ti *TypeInfo, r *rv, a []Value, fn *Func) Value {
		f := math.Abs(math.Float64frombits(a[1].u))
		return bv(ti.w == 32 && math.MaxFloat32 < f && f <= math.MaxFloat64)
	})
	reg("(reflect.StructTag).Get", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		s, ok := concStr(a[0])
		k, ok2 := concStr(a[1])
		if !ok || !ok2 {
			return Value{}, false
		}
		return strVal(reflect.StructTag(s).Get(k)), true
	})
	reg("(reflect.StructTag).Lookup", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		s, ok := concStr(a[0])
		k, ok2 := concStr(a[1])
		if !ok || !ok2 {
			return Value{}, false
		}
		v, has := reflect.StructTag(s).Lookup(k)
		return tup(strVal(v), bv(has)), true
	})
	reg("(reflect.Kind).String", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if a[0].o != nil {
			m.unsupported("symbolic kind")
		}
		return strVal(reflect.Kind(a[0].u).String()), true
	})
	reg("reflect.DeepEqual", func(m *Machine, a []Value, fn *Func, d int32) (Value, bool) {
		if a[0].o == nil || a[1].o == nil {
			return bv(a[0].o == nil && a[1].o == nil), true
		}
		x, y := a[0].o.(*Iface), a[1].o.(*Iface)
		if x.t != y.t {
			return bv(false), true
		}
		return m.boolVal(m.deepEq(x.t, x.v, y.v, 0)), true
	})
	_ = strconv.Itoa
}

type rmapIter struct {
	mo  *MapObj
	ti  *TypeInfo
	pos *Agg
}

func (m *Machine) newPtr(ti *TypeInfo) Value {
	if ti.hasAgg {
		return Value{o: m.zero(ti).o, u: WHOLE}
	}
	return Value{o: &Agg{e: make([]Value, 1), epoch: m.epoch, elem: ti}}
}

func (m *Machine) deepEq(ti *TypeInfo, a, b Value, depth int) *Term {
	if depth > 200 {
		m.unsupported("deepEq depth")
	}
	tb := m.tb
	switch ti.kind {
	case KPtr:
		if a.o == nil || b.o == nil {
			return tb.Bool(a.o == nil && b.o == nil)
		}
		if a.o == b.o && a.u == b.u {
			return tb.True
		}
		return m.deepEq(ti.elem, m.peek(a, ti.elem), m.peek(b, ti.elem), depth+1)
	case KSlice:
		if (a.o == nil) != (b.o == nil) {
			return tb.False
		}
		if a.o == nil {
			return tb.True
		}
		x, y := a.o.(*Slice), b.o.(*Slice)
		if x.len != y.len {
			return tb.False
		}
		t := tb.True
		for i := 0; i < x.len; i++ {
			t = tb.And(t, m.deepEq(ti.elem, x.a.e[x.off+i], y.a.e[y.off+i], depth+1))
		}
		return t
	case KArray:
		t := tb.True
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i := range x.e {
			t = tb.And(t, m.deepEq(ti.elem, x.e[i], y.e[i], depth+1))
		}
		return t
	case KStruct:
		t := tb.True
		x, y := a.o.(*Agg), b.o.(*Agg)
		for i, f := range ti.fields {
			t = tb.And(t, m.deepEq(f, x.e[i], y.e[i], depth+1))
			if t.isConst() && t.k == 0 {
				return t
			}
		}
		return t
	case KIface:
		if a.o == nil || b.o == nil {
			return tb.Bool(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Iface), b.o.(*Iface)
		if x.t != y.t {
			return tb.False
		}
		return m.deepEq(x.t, x.v, y.v, depth+1)
	case KMap:
		if (a.o == nil) != (b.o == nil) {
			return tb.False
		}
		if a.o == nil {
			return tb.True
		}
		x, y := a.o.(*MapObj), b.o.(*MapObj)
		if x.live != y.live {
			return tb.False
		}
		t := tb.True
		for i := range x.ents {
			if x.ents[i].dead {
				continue
			}
			e := m.mapFind(y, x.ents[i].k)
			if e < 0 {
				return tb.False
			}
			t = tb.And(t, m.deepEq(ti.elem, x.ents[i].v, y.ents[e].v, depth+1))
		}
		return t
	case KFunc:
		return tb.Bool(a.o == nil && b.o == nil)
	}
	return m.toTerm(m.eqVal(ti, a, b), 0)
}

// peek reads through a pointer without copying aggregates.
func (m *Machine) peek(p Value, ti *TypeInfo) Value {
	if ti.hasAgg {
		if a, ok := p.o.(*Agg); ok && p.u == WHOLE {
			return Value{o: a}
		}
	}
	return m.load(p, ti)
}
