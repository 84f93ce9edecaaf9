// Package sym is the harness interface. Under the symbolic engine its
// functions are intercepted; natively they read a recorded input vector.
package sym

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
)

type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// Stop is the panic value used natively to end a path.
type Stop struct {
	Kind string
	Msg  string
}

var (
	Vector []uint64
	Pos    int
	Obs    []string
	Params map[string]int
)

func next() uint64 {
	if Pos >= len(Vector) {
		Pos++
		return 0
	}
	v := Vector[Pos]
	Pos++
	return v
}

func Byte() byte     { return byte(next()) }
func Bool() bool     { return next()&1 != 0 }
func Int() int       { return int(next()) }
func Int64() int64   { return int64(next()) }
func Uint64() uint64 { return next() }
func Int32() int32   { return int32(next()) }
func Rune() rune     { return rune(next()) }

// Choice returns a value in [0,n); the engine explores each one.
func Choice(n int) int {
	v := next()
	if v >= uint64(n) {
		panic(Stop{"assume", "choice"})
	}
	return int(v)
}

// ByteIn returns a symbolic byte from the given set.
func ByteIn(set string) byte {
	b := byte(next())
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return b
		}
	}
	panic(Stop{"assume", "byte set"})
}

// IntRange returns a symbolic int in [lo,hi].
func IntRange(lo, hi int) int {
	v := int(next())
	if v < lo || v > hi {
		panic(Stop{"assume", "int range"})
	}
	return v
}

// Concrete forks over the feasible values of v.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

func Fail(msg string) { panic(Stop{"assert", msg}) }

func Cover(label string) {}

func Param(name string, def int) int {
	if v, ok := Params[name]; ok {
		return v
	}
	return def
}

func ObserveStr(tag string, v string) { Obs = append(Obs, tag+"="+strconv.Quote(v)) }
func ObserveInt(tag string, v int)    { Obs = append(Obs, tag+"="+strconv.Quote(strconv.Itoa(v))) }
func ObserveBool(tag string, v bool) {
	Obs = append(Obs, tag+"="+strconv.Quote(fmt.Sprint(v)))
}
func ObserveBytes(tag string, v []byte) { Obs = append(Obs, tag+"="+strconv.Quote(string(v))) }

// SetMapOrder selects the engine's map iteration order (0 insertion, 1 reverse,
// n>1 rotated by n-1). Natively Go's own randomised order applies.
func SetMapOrder(n int) {}

type snapshot struct {
	v interface{}
	s string
}

var frozen []snapshot

// Freeze makes all memory reachable from v read-only under the engine.
// Natively the contents are compared at the end.
func Freeze(v interface{}) { frozen = append(frozen, snapshot{v, dump(v)}) }

func dump(v interface{}) string {
	var b []byte
	seen := map[uintptr]bool{}
	var walk func(x reflect.Value)
	walk = func(x reflect.Value) {
		if !x.IsValid() {
			b = append(b, "nil;"...)
			return
		}
		b = append(b, x.Kind().String()...)
		switch x.Kind() {
		case reflect.Ptr, reflect.Interface:
			if x.IsNil() {
				b = append(b, "nil;"...)
				return
			}
			if x.Kind() == reflect.Ptr {
				if seen[x.Pointer()] {
					return
				}
				// only while it is being visited, so that the result does not
				// depend on the order of visits
				seen[x.Pointer()] = true
				defer delete(seen, x.Pointer())
			}
			walk(x.Elem())
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i))
			}
		case reflect.Slice, reflect.Array:
			b = append(b, strconv.Itoa(x.Len())...)
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
			}
		case reflect.Map:
			var parts []string
			for _, k := range x.MapKeys() {
				keep := b
				b = nil
				walk(k)
				walk(x.MapIndex(k))
				parts = append(parts, string(b))
				b = keep
			}
			sort.Strings(parts)
			for _, p := range parts {
				b = append(b, p...)
			}
		case reflect.String:
			b = strconv.AppendQuote(b, x.String())
		case reflect.Bool:
			b = strconv.AppendBool(b, x.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b = strconv.AppendInt(b, x.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			b = strconv.AppendUint(b, x.Uint(), 10)
		}
		b = append(b, ';')
	}
	walk(reflect.ValueOf(v))
	return string(b)
}

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

func Swap(x interface{}, i, j int) {}
func Len(x interface{}) int        { return 0 }

// Bytes returns n unconstrained symbolic bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// BytesIn returns n symbolic bytes from the set.
func BytesIn(set string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteIn(set)
	}
	return b
}

// Str returns a symbolic string of length n.
func Str(n int) string { return string(Bytes(n)) }

// StrIn returns a symbolic string of length n over the set.
func StrIn(set string, n int) string { return string(BytesIn(set, n)) }

// Run executes f natively with the given vector.
func Run(f func(), vec []uint64, params map[string]int) (end string, obs []string) {
	Vector, Pos, Obs, Params = vec, 0, nil, params
	frozen = nil
	defer func() {
		obs = Obs
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				end = s.Kind + ":" + s.Msg
				return
			}
			end = fmt.Sprintf("panic:%v", r)
		}
	}()
	f()
	for _, fz := range frozen {
		if dump(fz.v) != fz.s {
			return "frozen:a value given to the code under test was modified", Obs
		}
	}
	return "done", Obs
}
