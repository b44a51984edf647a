// Package interp executes Go SSA symbolically: every scalar may be a
// bit-vector term, control flow forks on undetermined conditions by
// re-executing from the harness entry with a decision prefix.
package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// value is one of:
//
//	uint64                 concrete integer or float bits (zero-extended)
//	bool                   concrete boolean
//	*term.Term             symbolic integer/float bits/boolean
//	string, *symstr        strings
//	[]value                slice (aliases the backing store)
//	*value, *symptr, *wordptr   pointers
//	structure, array       aggregates
//	iface                  interface value
//	*mapv, *channel        maps and channels
//	*ssa.Function, *closure, *nativeFn, *ssa.Builtin   functions
//	tuple                  multiple results
//	unsafePtr              unsafe.Pointer
type value interface{}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type symstr struct{ b []value }

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	f    func(fr *frame, args []value) value
}

// symptr is the address of base[idx] with idx symbolic (in range).
type symptr struct {
	base []value
	idx  *term.Term
}

// wordslice/wordptr: a []uintptr view over bytes (unsafe reinterpretation).
type wordslice struct{ b []value }
type wordptr struct{ b []value }

type unsafePtr struct {
	p value
	t types.Type // type of the pointer it was converted from
}

type opaque struct {
	kind string
	v    interface{}
}

func under(t types.Type) types.Type { return t.Underlying() }

type ikind struct {
	w      uint8
	signed bool
	float  bool
	isInt  bool
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int8:
		return ikind{8, true, false, true}, true
	case types.Int16:
		return ikind{16, true, false, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true, false, true}, true
	case types.Int, types.Int64, types.UntypedInt:
		return ikind{64, true, false, true}, true
	case types.Uint8:
		return ikind{8, false, false, true}, true
	case types.Uint16:
		return ikind{16, false, false, true}, true
	case types.Uint32:
		return ikind{32, false, false, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false, false, true}, true
	case types.Float64, types.UntypedFloat:
		return ikind{64, false, true, false}, true
	case types.Float32:
		return ikind{32, false, true, false}, true
	}
	return ikind{}, false
}

// zero returns a fresh zero value of t.
func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case u.Kind() == types.UntypedNil:
			return (*value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
		return uint64(0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Array:
		a := make(array, u.Len())
		et := u.Elem()
		if _, ok := intKind(et); ok {
			for i := range a {
				a[i] = uint64(0)
			}
			return a
		}
		for i := range a {
			a[i] = zero(et)
		}
		return a
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return iface{}
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*channel)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero: %v (%T)", t, t))
}

// copyVal deep-copies aggregates (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case structure, array:
				for i, x := range v {
					n[i] = copyVal(x)
				}
			default:
				copy(n, v)
			}
		}
		return n
	}
	return v
}

// storeInto writes v to *p keeping the identity of aggregate cells.
func storeInto(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*p).(structure); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if dst, ok := (*p).(array); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// mapv is an insertion-ordered map.
type mapv struct {
	keys, vals []value
	live       []bool
	n          int
	idx        map[interface{}]int
	symKeys    int
	kt         types.Type
}

func newMap(kt types.Type) *mapv {
	return &mapv{idx: map[interface{}]int{}, kt: kt}
}

// hashKey gives a comparable Go key for fully concrete keys.
func hashKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case uint64, bool, string, *value, *channel:
		return v, true
	case *term.Term, *symstr, *symptr:
		return nil, false
	case iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{"iface:" + types.TypeString(v.t, nil), k}, true
	case structure:
		return hashAgg([]value(v))
	case array:
		return hashAgg([]value(v))
	case *closure, *ssa.Function, *nativeFn:
		return v, true
	}
	return nil, false
}

func hashAgg(v []value) (interface{}, bool) {
	var b strings.Builder
	for _, x := range v {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		if s, ok := k.(string); ok {
			fmt.Fprintf(&b, "%d:%s|", len(s), s)
		} else {
			fmt.Fprintf(&b, "%T:%v|", k, k)
		}
	}
	return b.String(), true
}

// ---- strings

func strLen(s value) int {
	switch s := s.(type) {
	case string:
		return len(s)
	case *symstr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", s))
}

func strBytes(s value) []value {
	switch s := s.(type) {
	case string:
		b := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = uint64(s[i])
		}
		return b
	case *symstr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", s))
}

// mkStr builds a string from byte values (copies).
func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &symstr{append([]value(nil), b...)}
		}
	}
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = byte(x.(uint64))
	}
	return string(o)
}

func concreteBytes(b []value) ([]byte, bool) {
	o := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		o[i] = byte(u)
	}
	return o, true
}

func bytesVal(b []byte) []value {
	if b == nil {
		return nil
	}
	o := make([]value, len(b))
	for i, x := range b {
		o[i] = uint64(x)
	}
	return o
}

func isNilPtr(v value) bool {
	switch v := v.(type) {
	case *value:
		return v == nil
	case nil:
		return true
	}
	return false
}

// typeName renders types compactly.
func typeName(t types.Type) string { return types.TypeString(t, nil) }

// show renders a value for diagnostics.
func show(v value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<undef>"
	case uint64:
		return fmt.Sprintf("%d", int64(v))
	case bool:
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *term.Term:
		s := v.String()
		if len(s) > 60 {
			s = s[:60] + "…"
		}
		return "<" + s + ">"
	case *symstr:
		return "symstr" + show(v.b, depth+1)
	case []value:
		if v == nil {
			return "nil[]"
		}
		var p []string
		for i, x := range v {
			if i > 20 {
				p = append(p, "…")
				break
			}
			p = append(p, show(x, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case structure:
		return "{" + show([]value(v), depth+1) + "}"
	case array:
		return show([]value(v), depth+1)
	case tuple:
		return "(" + show([]value(v), depth+1) + ")"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return typeName(v.t) + "(" + show(v.v, depth+1) + ")"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + show(*v, depth+1)
	case *ssa.Function:
		if v == nil {
			return "nilfunc"
		}
		return v.String()
	}
	return fmt.Sprintf("%T", v)
}
