package lib

import (
	"reflect"

	"github.com/hashicorp/hcl2/zzverif/sym"
	"github.com/zclconf/go-cty/cty"
)

// StrC is a string value of one symbolic character.
func StrC(set string) cty.Value { return cty.StringVal(string([]byte{sym.ByteIn(set)})) }

// NumC is a symbolic small whole number.
func NumC(lo, hi int) cty.Value {
	return cty.NumberIntVal(int64(sym.Concrete(sym.IntRange(lo, hi))))
}

// BoolC is a symbolic truth value.
func BoolC() cty.Value { return cty.BoolVal(sym.Bool()) }

var capsTy = cty.Capsule("thing", reflect.TypeOf(0))

// Thing is a capsule value.
var Thing = func() cty.Value { n := 1; return cty.CapsuleVal(capsTy, &n) }()

var objTy = cty.Object(map[string]cty.Type{"a": cty.String})

func obj(v cty.Value) cty.Value { return cty.ObjectVal(map[string]cty.Value{"a": v}) }

// NVals is the number of kinds of value Val makes.
const NVals = 36

// Val returns a value of the given kind; known primitive parts are symbolic.
func Val(k int) cty.Value {
	switch k {
	case 0:
		return StrC("a1z")
	case 1:
		return NumC(-1, 2)
	case 2:
		return BoolC()
	case 3:
		return cty.NullVal(cty.DynamicPseudoType)
	case 4:
		return cty.NullVal(cty.String)
	case 5:
		return cty.NullVal(cty.List(cty.String))
	case 6:
		return cty.UnknownVal(cty.String)
	case 7:
		return cty.UnknownVal(cty.Number)
	case 8:
		return cty.UnknownVal(cty.Bool)
	case 9:
		return cty.UnknownVal(cty.List(cty.String))
	case 10:
		return cty.UnknownVal(cty.Map(cty.String))
	case 11:
		return cty.UnknownVal(objTy)
	case 12:
		return cty.UnknownVal(cty.Tuple([]cty.Type{cty.String, cty.Number}))
	case 13:
		return cty.DynamicVal
	case 14:
		return cty.ListVal([]cty.Value{StrC("a1"), StrC("ab")})
	case 15:
		return cty.ListValEmpty(cty.String)
	case 16:
		return cty.ListVal([]cty.Value{obj(StrC("ab"))})
	case 17:
		return cty.SetVal([]cty.Value{StrC("a1"), cty.StringVal("a")})
	case 18:
		return cty.MapVal(map[string]cty.Value{string([]byte{sym.ByteIn("a0")}): StrC("ab")})
	case 19:
		return cty.MapValEmpty(cty.String)
	case 20:
		return cty.TupleVal([]cty.Value{StrC("a1"), NumC(0, 1)})
	case 21:
		return cty.EmptyTupleVal
	case 22:
		return cty.ObjectVal(map[string]cty.Value{"a": StrC("ab"), "b": NumC(0, 1)})
	case 23:
		return cty.EmptyObjectVal
	case 24:
		return cty.TupleVal([]cty.Value{cty.UnknownVal(cty.String), cty.NullVal(cty.String), cty.DynamicVal})
	case 25:
		return cty.ObjectVal(map[string]cty.Value{"a": cty.DynamicVal, "b": cty.NullVal(cty.DynamicPseudoType)})
	case 26:
		return cty.ListVal([]cty.Value{cty.UnknownVal(cty.String), cty.NullVal(cty.String)})
	case 27:
		return Thing
	case 28:
		return cty.TupleVal([]cty.Value{obj(StrC("ab")), cty.EmptyObjectVal})
	case 29:
		return cty.ListVal([]cty.Value{cty.ListVal([]cty.Value{StrC("ab")}), cty.ListValEmpty(cty.String)})
	case 30:
		return cty.NullVal(cty.Number)
	case 31:
		return cty.NullVal(objTy)
	case 32:
		return cty.SetVal([]cty.Value{obj(StrC("ab"))})
	case 33:
		return cty.UnknownVal(cty.Set(objTy))
	case 34:
		return cty.ListVal([]cty.Value{BoolC(), cty.True})
	case 35:
		return cty.MapVal(map[string]cty.Value{"a": cty.NullVal(cty.String), "b": cty.UnknownVal(cty.String)})
	}
	return cty.NilVal
}

// AnyVal returns a value of any kind.
func AnyVal() cty.Value { return Val(sym.Choice(NVals)) }

var few = []int{0, 1, 2, 3, 6, 9, 13, 14, 17, 18, 20, 22, 24}

// FewVals returns a value of one of the most telling kinds.
func FewVals() cty.Value { return Val(few[sym.Choice(len(few))]) }

var known = []int{0, 1, 2, 14, 15, 16, 17, 18, 20, 22}

// KnownVals returns a wholly known value that is not null.
func KnownVals() cty.Value { return Val(known[sym.Choice(len(known))]) }

// Dynamic reports whether a value has parts whose type is not known.
func Dynamic(v cty.Value) bool { return v.Type().HasDynamicTypes() }

// NPairs is the number of kinds of pair Pair makes.
const NPairs = 16

// Pair returns a value that is not wholly known and a value it may stand for.
func Pair(k int) (u, c cty.Value) {
	switch k {
	case 0:
		return cty.UnknownVal(cty.String), StrC("a1z")
	case 1:
		return cty.UnknownVal(cty.Number), NumC(-1, 2)
	case 2:
		return cty.UnknownVal(cty.Bool), BoolC()
	case 3:
		return cty.UnknownVal(cty.List(cty.String)), Val(14 + sym.Choice(2))
	case 4:
		return cty.UnknownVal(cty.Map(cty.String)), Val(18 + sym.Choice(2))
	case 5:
		return cty.UnknownVal(objTy), obj(StrC("ab"))
	case 6:
		return cty.UnknownVal(cty.Tuple([]cty.Type{cty.String, cty.Number})), Val(20)
	case 7:
		return cty.UnknownVal(cty.Set(cty.String)), Val(17)
	case 8:
		c := KnownVals()
		return cty.DynamicVal, c
	case 9:
		return cty.UnknownVal(cty.List(objTy)), Val(16)
	case 10:
		return cty.ListVal([]cty.Value{cty.UnknownVal(cty.String), cty.StringVal("b")}), cty.ListVal([]cty.Value{StrC("ab1"), cty.StringVal("b")})
	case 11:
		c := KnownVals()
		return cty.TupleVal([]cty.Value{cty.StringVal("a"), cty.DynamicVal}), cty.TupleVal([]cty.Value{cty.StringVal("a"), c})
	case 12:
		return obj(cty.UnknownVal(cty.String)), obj(StrC("ab"))
	case 13:
		return cty.MapVal(map[string]cty.Value{"a": cty.UnknownVal(cty.String), "b": cty.StringVal("c")}), cty.MapVal(map[string]cty.Value{"a": StrC("abc"), "b": cty.StringVal("c")})
	case 14:
		return cty.ListVal([]cty.Value{cty.UnknownVal(cty.Bool), cty.True}), cty.ListVal([]cty.Value{BoolC(), cty.True})
	case 15:
		return cty.UnknownVal(cty.Set(objTy)), Val(32)
	}
	return cty.NilVal, cty.NilVal
}

// AnyPair returns a pair of any kind.
func AnyPair() (u, c cty.Value) { return Pair(sym.Choice(NPairs)) }

// StandsFor reports whether a value computed with unknown parts agrees with
// the value computed with those parts known.
func StandsFor(u, c cty.Value) bool {
	ut, ct := u.Type(), c.Type()
	if !u.IsKnown() {
		return ut == cty.DynamicPseudoType || len(ct.TestConformance(ut)) == 0
	}
	if u.IsNull() {
		return c.IsKnown() && c.IsNull() && len(ct.TestConformance(ut)) == 0
	}
	if !c.IsKnown() {
		return false
	}
	if c.IsNull() {
		return false
	}
	switch {
	case ut.IsTupleType() || ut.IsListType():
		if ut.IsTupleType() != ct.IsTupleType() || ut.IsListType() != ct.IsListType() || u.LengthInt() != c.LengthInt() {
			return false
		}
		us, cs := u.AsValueSlice(), c.AsValueSlice()
		for i := range us {
			if !StandsFor(us[i], cs[i]) {
				return false
			}
		}
		return true
	case ut.IsObjectType() || ut.IsMapType():
		if ut.IsObjectType() != ct.IsObjectType() || ut.IsMapType() != ct.IsMapType() || u.LengthInt() != c.LengthInt() {
			return false
		}
		um, cm := u.AsValueMap(), c.AsValueMap()
		for k, uv := range um {
			cv, ok := cm[k]
			if !ok || !StandsFor(uv, cv) {
				return false
			}
		}
		return true
	case ut.IsSetType():
		return !u.IsWhollyKnown() && ct.IsSetType() || u.RawEquals(c)
	}
	return u.RawEquals(c)
}

// Well reports whether a value and all its parts can be inspected.
func Well(v cty.Value) bool {
	if v == cty.NilVal || v.Type() == cty.NilType {
		return false
	}
	ty := v.Type()
	if !v.IsKnown() || v.IsNull() || ty.IsPrimitiveType() || ty.IsCapsuleType() {
		return true
	}
	if ty == cty.DynamicPseudoType {
		return false
	}
	for it := v.ElementIterator(); it.Next(); {
		_, e := it.Element()
		if !Well(e) {
			return false
		}
		switch {
		case ty.IsListType() || ty.IsSetType() || ty.IsMapType():
			if ty.ElementType() != cty.DynamicPseudoType && !e.Type().Equals(ty.ElementType()) {
				return false
			}
		}
	}
	return true
}
