package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// T converts a scalar to a term of width w (0 for booleans).
func (p *path) T(v value, w uint8) *term.Term {
	switch v := v.(type) {
	case uint64:
		return p.tab.Const(w, v)
	case bool:
		return p.tab.Bool(v)
	case *term.Term:
		if v.W != w {
			panic(fmt.Sprintf("width mismatch: have %d want %d", v.W, w))
		}
		return v
	}
	panic(fmt.Sprintf("T: %T", v))
}

// V turns constant terms back into concrete values.
func V(t *term.Term) value {
	if t.Op == term.OConst {
		if t.W == 0 {
			return t.K == 1
		}
		return t.K
	}
	return t
}

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (p *path) not(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *term.Term:
		return V(p.tab.Not(v))
	}
	panic("not")
}

func (p *path) and(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return V(p.tab.And(a.(*term.Term), b.(*term.Term)))
}

func (p *path) or(a, b value) value { return p.not(p.and(p.not(a), p.not(b))) }

// binop computes x op y; t is the type of x.
func (fr *frame) binop(op token.Token, t types.Type, yt types.Type, x, y value) value {
	p := fr.p
	switch op {
	case token.EQL:
		return p.equals(t, x, y)
	case token.NEQ:
		return p.not(p.equals(t, x, y))
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		p.unsupported("binop %s on %s", op, t)
	}
	if b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			if xs, ok := x.(string); ok {
				if ys, ok := y.(string); ok {
					return xs + ys
				}
			}
			xb, yb := strBytes(x), strBytes(y)
			return mkStr(append(append(make([]value, 0, len(xb)+len(yb)), xb...), yb...))
		case token.LSS:
			return p.strLess(x, y, false)
		case token.LEQ:
			return p.strLess(x, y, true)
		case token.GTR:
			return p.strLess(y, x, false)
		case token.GEQ:
			return p.strLess(y, x, true)
		}
	}
	if b.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return p.and(x, y)
		case token.OR, token.LOR:
			return p.or(x, y)
		}
	}
	k, ok := intKind(t)
	if !ok {
		p.unsupported("binop %s on %s", op, t)
	}
	if k.float {
		return fr.floatOp(op, k, x, y)
	}
	if op == token.SHL || op == token.SHR {
		return fr.shift(op, k, yt, x, y)
	}
	xc, ok1 := x.(uint64)
	yc, ok2 := y.(uint64)
	if ok1 && ok2 {
		return fr.intConc(op, k, xc, yc)
	}
	tb := p.tab
	X, Y := p.T(x, k.w), p.T(y, k.w)
	switch op {
	case token.ADD:
		return V(tb.Add(X, Y))
	case token.SUB:
		return V(tb.Sub(X, Y))
	case token.MUL:
		return V(tb.Mul(X, Y))
	case token.QUO, token.REM:
		if p.branch(V(tb.Eq(Y, tb.Const(k.w, 0)))) {
			fr.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && k.signed:
			return V(tb.SDiv(X, Y))
		case op == token.QUO:
			return V(tb.UDiv(X, Y))
		case k.signed:
			return V(tb.SRem(X, Y))
		}
		return V(tb.URem(X, Y))
	case token.AND:
		return V(tb.BAnd(X, Y))
	case token.OR:
		return V(tb.BOr(X, Y))
	case token.XOR:
		return V(tb.BXor(X, Y))
	case token.AND_NOT:
		return V(tb.BAnd(X, tb.BNot(Y)))
	case token.LSS:
		if k.signed {
			return V(tb.Slt(X, Y))
		}
		return V(tb.Ult(X, Y))
	case token.LEQ:
		if k.signed {
			return V(tb.Sle(X, Y))
		}
		return V(tb.Ule(X, Y))
	case token.GTR:
		if k.signed {
			return V(tb.Slt(Y, X))
		}
		return V(tb.Ult(Y, X))
	case token.GEQ:
		if k.signed {
			return V(tb.Sle(Y, X))
		}
		return V(tb.Ule(Y, X))
	}
	p.unsupported("binop %s", op)
	return nil
}

func (fr *frame) intConc(op token.Token, k ikind, x, y uint64) value {
	m := term.Mask(k.w)
	switch op {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO, token.REM:
		if y == 0 {
			fr.rtPanic("integer divide by zero")
		}
		if k.signed {
			a, b := sx(x, k.w), sx(y, k.w)
			if b == -1 {
				if op == token.QUO {
					return uint64(-a) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(a/b) & m
			}
			return uint64(a%b) & m
		}
		if op == token.QUO {
			return x / y
		}
		return x % y
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	}
	if k.signed {
		a, b := sx(x, k.w), sx(y, k.w)
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	switch op {
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	}
	panic("intConc " + op.String())
}

func (fr *frame) shift(op token.Token, k ikind, yt types.Type, x, y value) value {
	p := fr.p
	yk, _ := intKind(yt)
	if yk.signed {
		neg := V(p.tab.Slt(p.T(y, yk.w), p.tab.Const(yk.w, 0)))
		if p.branch(neg) {
			fr.rtPanic("negative shift amount")
		}
	}
	if yc, ok := y.(uint64); ok {
		if xc, ok := x.(uint64); ok {
			if op == token.SHL {
				if yc >= uint64(k.w) {
					return uint64(0)
				}
				return xc << yc & term.Mask(k.w)
			}
			if k.signed {
				if yc >= uint64(k.w) {
					yc = uint64(k.w) - 1
				}
				return uint64(sx(xc, k.w)>>yc) & term.Mask(k.w)
			}
			if yc >= uint64(k.w) {
				return uint64(0)
			}
			return xc >> yc
		}
		if yc > uint64(k.w) {
			yc = uint64(k.w)
		}
		X := x.(*term.Term)
		Y := p.tab.Const(k.w, yc)
		if op == token.SHL {
			return V(p.tab.Shl(X, Y))
		}
		if k.signed {
			return V(p.tab.Ashr(X, Y))
		}
		return V(p.tab.Lshr(X, Y))
	}
	// symbolic amount: bring to the width of x, saturating
	Y := y.(*term.Term)
	var ys *term.Term
	big := p.tab.Not(p.tab.Ult(Y, p.tab.Const(Y.W, uint64(k.w))))
	if Y.W == k.w {
		ys = Y
	} else if Y.W < k.w {
		ys = p.tab.ZExt(Y, k.w)
	} else {
		ys = p.tab.Extract(Y, 0, k.w)
	}
	X := p.T(x, k.w)
	z := p.tab.Const(k.w, 0)
	switch {
	case op == token.SHL:
		return V(p.tab.Ite(big, z, p.tab.Shl(X, ys)))
	case k.signed:
		sgn := p.tab.Ite(p.tab.Slt(X, z), p.tab.Const(k.w, ^uint64(0)), z)
		return V(p.tab.Ite(big, sgn, p.tab.Ashr(X, ys)))
	}
	return V(p.tab.Ite(big, z, p.tab.Lshr(X, ys)))
}

func (fr *frame) floatOp(op token.Token, k ikind, x, y value) value {
	p := fr.p
	xc, ok1 := x.(uint64)
	yc, ok2 := y.(uint64)
	if ok1 && ok2 {
		var a, b float64
		if k.w == 64 {
			a, b = math.Float64frombits(xc), math.Float64frombits(yc)
		} else {
			a, b = float64(math.Float32frombits(uint32(xc))), float64(math.Float32frombits(uint32(yc)))
		}
		ret := func(f float64) value {
			if k.w == 64 {
				return math.Float64bits(f)
			}
			return uint64(math.Float32bits(float32(f)))
		}
		switch op {
		case token.ADD:
			return ret(a + b)
		case token.SUB:
			return ret(a - b)
		case token.MUL:
			return ret(a * b)
		case token.QUO:
			return ret(a / b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	X, Y := p.T(x, k.w), p.T(y, k.w)
	switch op {
	case token.LSS:
		return V(p.fcmp(X, Y, true))
	case token.LEQ:
		return V(p.fcmp(X, Y, false))
	case token.GTR:
		return V(p.fcmp(Y, X, true))
	case token.GEQ:
		return V(p.fcmp(Y, X, false))
	}
	p.unsupported("symbolic floating point %s", op)
	return nil
}

func (p *path) fNaN(x *term.Term) *term.Term {
	tb := p.tab
	w := x.W
	inf := uint64(0x7ff0000000000000)
	if w == 32 {
		inf = 0x7f800000
	}
	mag := tb.Concat(tb.Const(1, 0), tb.Extract(x, 0, w-1))
	return tb.Ult(tb.Const(w, inf), mag)
}

// fkey maps float bits to an integer ordered like the float, with both zeroes equal.
func (p *path) fcmp(a, b *term.Term, strict bool) *term.Term {
	tb := p.tab
	w := a.W
	key := func(x *term.Term) *term.Term { // signed order
		neg := tb.Slt(x, tb.Const(w, 0))
		mag := tb.Concat(tb.Const(1, 0), tb.Extract(x, 0, w-1))
		return tb.Ite(neg, tb.Neg(mag), mag)
	}
	ok := tb.And(tb.Not(p.fNaN(a)), tb.Not(p.fNaN(b)))
	if strict {
		return tb.And(ok, tb.Slt(key(a), key(b)))
	}
	return tb.And(ok, tb.Sle(key(a), key(b)))
}

func (p *path) fEq(a, b *term.Term) *term.Term {
	tb := p.tab
	w := a.W
	z := func(x *term.Term) *term.Term { return tb.Eq(tb.Extract(x, 0, w-1), tb.Const(w-1, 0)) }
	same := tb.And(tb.Eq(a, b), tb.Not(p.fNaN(a)))
	return tb.Or(same, tb.And(z(a), z(b)))
}

// ---- strings and byte sequences

// bytesEq compares byte sequences of equal length as one term.
func (p *path) bytesEq(a, b []value) value {
	if len(a) != len(b) {
		return false
	}
	tb := p.tab
	acc := tb.True
	for i := 0; i < len(a); {
		ac, ok1 := a[i].(uint64)
		bc, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if ac != bc {
				return false
			}
			i++
			continue
		}
		// chunk of up to 8
		j := i
		var X, Y *term.Term
		for j < len(a) && j < i+8 {
			x, y := p.T(a[j], 8), p.T(b[j], 8)
			if X == nil {
				X, Y = x, y
			} else {
				X, Y = tb.Concat(X, x), tb.Concat(Y, y)
			}
			j++
		}
		acc = tb.And(acc, tb.Eq(X, Y))
		if acc.IsFalse() {
			return false
		}
		i = j
	}
	return V(acc)
}

func (p *path) strEq(x, y value) value {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return xs == ys
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	return p.bytesEq(strBytes(x), strBytes(y))
}

// bytesLess is lexicographic a<b (or a<=b) as one term.
func (p *path) bytesLess(a, b []value, orEq bool) value {
	tb := p.tab
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	// start with the comparison of what follows the common length
	var acc *term.Term
	if len(a) < len(b) {
		acc = tb.True
	} else if len(a) == len(b) {
		acc = tb.Bool(orEq)
	} else {
		acc = tb.False
	}
	// chunks from the end
	var starts []int
	for i := 0; i < n; i += 8 {
		starts = append(starts, i)
	}
	for s := len(starts) - 1; s >= 0; s-- {
		i := starts[s]
		j := i + 8
		if j > n {
			j = n
		}
		X, Y := p.T(a[i], 8), p.T(b[i], 8)
		for k := i + 1; k < j; k++ {
			X, Y = tb.Concat(X, p.T(a[k], 8)), tb.Concat(Y, p.T(b[k], 8))
		}
		switch {
		case acc.IsFalse():
			acc = tb.Ult(X, Y)
		case acc.IsTrue():
			acc = tb.Ule(X, Y)
		default:
			acc = tb.Or(tb.Ult(X, Y), tb.And(tb.Eq(X, Y), acc))
		}
	}
	return V(acc)
}

func (p *path) strLess(x, y value, orEq bool) value {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			if orEq {
				return xs <= ys
			}
			return xs < ys
		}
	}
	return p.bytesLess(strBytes(x), strBytes(y), orEq)
}

// ---- equality

func (p *path) equals(t types.Type, x, y value) value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.strEq(x, y)
		case u.Info()&types.IsBoolean != 0:
			if xb, ok := x.(bool); ok {
				if yb, ok := y.(bool); ok {
					return xb == yb
				}
			}
			return V(p.tab.Eq(p.T(x, 0), p.T(y, 0)))
		case u.Kind() == types.UnsafePointer:
			return x == y
		}
		k, ok := intKind(t)
		if !ok {
			p.unsupported("== on %s", t)
		}
		xc, ok1 := x.(uint64)
		yc, ok2 := y.(uint64)
		if ok1 && ok2 {
			if k.float {
				if k.w == 64 {
					return math.Float64frombits(xc) == math.Float64frombits(yc)
				}
				return math.Float32frombits(uint32(xc)) == math.Float32frombits(uint32(yc))
			}
			return xc == yc
		}
		if k.float {
			return V(p.fEq(p.T(x, k.w), p.T(y, k.w)))
		}
		return V(p.tab.Eq(p.T(x, k.w), p.T(y, k.w)))
	case *types.Pointer, *types.Chan:
		return x == y
	case *types.Map:
		return x.(*mapv) == y.(*mapv)
	case *types.Slice:
		return isNilSlice(x) && isNilSlice(y)
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	case *types.Interface:
		xi, ok1 := x.(iface)
		yi, ok2 := y.(iface)
		if !ok1 || !ok2 {
			p.unsupported("== on %T,%T as %s", x, y, t)
		}
		return p.ifaceEq(xi, yi)
	case *types.Struct:
		var acc value = true
		xs, ys := x.(structure), y.(structure)
		for i := range xs {
			if u.Field(i).Name() == "_" {
				continue
			}
			acc = p.and(acc, p.equals(u.Field(i).Type(), xs[i], ys[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case *types.Array:
		xs, ys := x.(array), y.(array)
		if k, ok := intKind(u.Elem()); ok && k.w == 8 {
			return p.bytesEq(xs, ys)
		}
		var acc value = true
		for i := range xs {
			acc = p.and(acc, p.equals(u.Elem(), xs[i], ys[i]))
			if acc == false {
				return false
			}
		}
		return acc
	}
	p.unsupported("== on %s", t)
	return nil
}

func isNilSlice(v value) bool {
	switch s := v.(type) {
	case []value:
		return s == nil
	case wordslice:
		return false
	}
	return v == nil
}

func isNilFunc(v value) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func (p *path) ifaceEq(x, y iface) value {
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if !identical(x.t, y.t) {
		return false
	}
	if !types.Comparable(x.t) {
		p.cur.fr.rtPanic("comparing uncomparable type " + typeName(x.t))
	}
	return p.equals(x.t, x.v, y.v)
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// ---- unary and conversions

func (fr *frame) unop(op token.Token, t types.Type, x value) value {
	p := fr.p
	switch op {
	case token.NOT:
		return p.not(x)
	case token.SUB:
		k, _ := intKind(t)
		if xc, ok := x.(uint64); ok {
			if k.float {
				return xc ^ 1<<(k.w-1)
			}
			return -xc & term.Mask(k.w)
		}
		if k.float {
			return V(p.tab.BXor(p.T(x, k.w), p.tab.Const(k.w, 1<<(k.w-1))))
		}
		return V(p.tab.Neg(x.(*term.Term)))
	case token.XOR:
		k, _ := intKind(t)
		if xc, ok := x.(uint64); ok {
			return ^xc & term.Mask(k.w)
		}
		return V(p.tab.BNot(x.(*term.Term)))
	}
	p.unsupported("unop %s", op)
	return nil
}

func (fr *frame) convert(dst, src types.Type, x value) value {
	p := fr.p
	ud, us := under(dst), under(src)
	// unsafe
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if up, ok := x.(unsafePtr); ok {
			return up
		}
		return unsafePtr{x, src}
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return fr.fromUnsafe(dst, x.(unsafePtr))
	}
	if kd, ok := intKind(dst); ok {
		if ks, ok := intKind(src); ok {
			return fr.convNum(kd, ks, x)
		}
	}
	db, dIsB := ud.(*types.Basic)
	sb, sIsB := us.(*types.Basic)
	switch {
	case dIsB && db.Info()&types.IsString != 0:
		if sIsB && sb.Info()&types.IsString != 0 {
			return x
		}
		if sIsB && sb.Info()&types.IsInteger != 0 {
			c, ok := x.(uint64)
			if !ok {
				p.unsupported("string(symbolic rune)")
			}
			return string(rune(sx(c, 64)))
		}
		if sl, ok := us.(*types.Slice); ok {
			k, _ := intKind(sl.Elem())
			if k.w == 8 {
				return mkStr(x.([]value))
			}
			var rs []rune
			for _, v := range x.([]value) {
				c, ok := v.(uint64)
				if !ok {
					p.unsupported("string([]rune) symbolic")
				}
				rs = append(rs, rune(int32(c)))
			}
			return string(rs)
		}
	case sIsB && sb.Info()&types.IsString != 0:
		if sl, ok := ud.(*types.Slice); ok {
			k, _ := intKind(sl.Elem())
			if k.w == 8 {
				b := strBytes(x)
				o := make([]value, len(b))
				copy(o, b)
				return o
			}
			s, ok := x.(string)
			if !ok {
				p.unsupported("[]rune(symbolic)")
			}
			o := []value{}
			for _, r := range s {
				o = append(o, uint64(uint32(r)))
			}
			return o
		}
	}
	switch ud.(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Map, *types.Chan, *types.Signature, *types.Interface, *types.Array:
		return x
	}
	if dIsB && sIsB && db.Info()&types.IsBoolean != 0 {
		return x
	}
	p.unsupported("convert %s to %s", src, dst)
	return nil
}

func (fr *frame) convNum(kd, ks ikind, x value) value {
	p := fr.p
	if kd.float || ks.float {
		xc, ok := x.(uint64)
		if !ok {
			if kd == ks {
				return x
			}
			p.unsupported("symbolic float conversion")
		}
		var f float64
		switch {
		case ks.float && ks.w == 64:
			f = math.Float64frombits(xc)
		case ks.float:
			f = float64(math.Float32frombits(uint32(xc)))
		case ks.signed:
			f = float64(sx(xc, ks.w))
		default:
			f = float64(xc)
		}
		switch {
		case kd.float && kd.w == 64:
			return math.Float64bits(f)
		case kd.float:
			return uint64(math.Float32bits(float32(f)))
		case kd.signed:
			return uint64(int64(f)) & term.Mask(kd.w)
		default:
			return uint64(f) & term.Mask(kd.w)
		}
	}
	if xc, ok := x.(uint64); ok {
		if ks.signed && kd.w > ks.w {
			return uint64(sx(xc, ks.w)) & term.Mask(kd.w)
		}
		return xc & term.Mask(kd.w)
	}
	X := x.(*term.Term)
	switch {
	case kd.w == ks.w:
		return X
	case kd.w < ks.w:
		return V(p.tab.Extract(X, 0, kd.w))
	case ks.signed:
		return V(p.tab.SExt(X, kd.w))
	}
	return V(p.tab.ZExt(X, kd.w))
}

// fromUnsafe reinterprets a pointer.
func (fr *frame) fromUnsafe(dst types.Type, u unsafePtr) value {
	p := fr.p
	if b, ok := under(dst).(*types.Basic); ok && b.Kind() == types.Uintptr {
		return uint64(0x1000)
	}
	dp, ok := under(dst).(*types.Pointer)
	if !ok {
		p.unsupported("unsafe conversion to %s", dst)
	}
	if isNilPtr(u.p) {
		return (*value)(nil)
	}
	sp, ok := under(u.t).(*types.Pointer)
	if !ok {
		p.unsupported("unsafe conversion from %s", u.t)
	}
	de, se := under(dp.Elem()), under(sp.Elem())
	if types.Identical(de, se) {
		return u.p
	}
	cell, ok := u.p.(*value)
	if !ok {
		p.unsupported("unsafe conversion of %T", u.p)
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		if !ok {
			return false
		}
		k, ok := intKind(s.Elem())
		return ok && k.w == 8
	}
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Kind() == types.String
	}
	switch {
	case isBytes(se) && isStr(de):
		c := new(value)
		*c = mkStr((*cell).([]value))
		return c
	case isStr(se) && isBytes(de):
		c := new(value)
		*c = append([]value(nil), strBytes(*cell)...)
		return c
	case isBytes(se):
		if s, ok := de.(*types.Slice); ok {
			if k, ok := intKind(s.Elem()); ok && k.w == 64 {
				c := new(value)
				*c = wordslice{(*cell).([]value)}
				return c
			}
		}
	}
	// scalar punning (float64 <-> uint64 and the like)
	if kd, ok := intKind(de); ok {
		if ks, ok := intKind(se); ok && kd.w == ks.w {
			return u.p
		}
	}
	// reflect.StringHeader / SliceHeader style access
	p.unsupported("unsafe conversion %s to %s", u.t, dst)
	return nil
}

// ---- memory

func (fr *frame) load(t types.Type, a value) value {
	p := fr.p
	switch a := a.(type) {
	case *value:
		if a == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.races != nil {
			fr.touchCell(a, false)
		}
		switch v := (*a).(type) {
		case structure, array:
			return copyVal(v)
		case nil:
			p.unsupported("load of an undefined cell (%s)", t)
		default:
			return v
		}
	case *symptr:
		k, isInt := intKind(t)
		w := k.w
		if !isInt {
			if b, ok := under(t).(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				i := p.concretize(a.idx, "index")
				return copyVal(a.base[i])
			}
			w = 0
		}
		return V(p.selectTerm(a.base, a.idx, w))
	case *wordptr:
		tb := p.tab
		X := p.T(a.b[0], 8)
		for i := 1; i < 8; i++ {
			X = tb.Concat(p.T(a.b[i], 8), X)
		}
		return V(X)
	}
	p.unsupported("load through %T", a)
	return nil
}

// selectTerm is base[idx] as an ite tree.
func (p *path) selectTerm(base []value, idx *term.Term, w uint8) *term.Term {
	tb := p.tab
	r := p.T(base[len(base)-1], w)
	for i := len(base) - 2; i >= 0; i-- {
		r = tb.Ite(tb.Eq(idx, tb.Const(idx.W, uint64(i))), p.T(base[i], w), r)
	}
	return r
}

func (fr *frame) store(t types.Type, a value, v value) {
	p := fr.p
	switch a := a.(type) {
	case *value:
		if a == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.races != nil {
			fr.touchCell(a, true)
		}
		storeInto(a, v)
		return
	case *symptr:
		k, isInt := intKind(t)
		if !isInt {
			i := p.concretize(a.idx, "index")
			storeInto(&a.base[i], v)
			return
		}
		tb := p.tab
		nv := p.T(v, k.w)
		for i := range a.base {
			a.base[i] = V(tb.Ite(tb.Eq(a.idx, tb.Const(a.idx.W, uint64(i))), nv, p.T(a.base[i], k.w)))
		}
		return
	case *wordptr:
		X := p.T(v, 64)
		for i := 0; i < 8; i++ {
			a.b[i] = V(p.tab.Extract(X, uint8(8*i), 8))
		}
		return
	}
	p.unsupported("store through %T", a)
}

// index resolves an index value against a length; ok result is either concrete or a symbolic in-range term.
func (fr *frame) checkIndex(idx value, it types.Type, n int) (int, *term.Term) {
	p := fr.p
	k, _ := intKind(it)
	if c, ok := idx.(uint64); ok {
		i := sx(c, k.w)
		if !k.signed {
			i = int64(c)
			if i < 0 {
				i = math.MaxInt64
			}
		}
		if i < 0 || i >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	X := idx.(*term.Term)
	var c64 *term.Term
	if k.signed {
		c64 = p.tab.SExt(X, 64)
	} else {
		c64 = p.tab.ZExt(X, 64)
	}
	in := p.tab.Ult(c64, p.tab.Const(64, uint64(n)))
	if !p.branch(V(in)) {
		fr.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if n > 512 {
		return int(p.concretize(c64, "index")), nil
	}
	return 0, c64
}

func (fr *frame) indexAddr(x value, xt types.Type, idx value, it types.Type) value {
	p := fr.p
	var base []value
	switch x := x.(type) {
	case []value:
		base = x
	case *value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = []value((*x).(array))
	case wordslice:
		i, s := fr.checkIndex(idx, it, len(x.b))
		if s != nil {
			i = int(p.concretize(s, "word index"))
		}
		if i*8+8 > len(x.b) {
			p.unsupported("word access beyond the slice")
		}
		return &wordptr{x.b[i*8 : i*8+8]}
	default:
		p.unsupported("indexaddr on %T", x)
	}
	i, s := fr.checkIndex(idx, it, len(base))
	if s == nil {
		return &base[i]
	}
	return &symptr{base, s}
}

// toInt concretises an integer used as a size.
func (fr *frame) toInt(v value, t types.Type, what string) int64 {
	k, ok := intKind(t)
	if !ok {
		k = ikind{64, true, false, true}
	}
	switch v := v.(type) {
	case uint64:
		if k.signed {
			return sx(v, k.w)
		}
		return int64(v)
	case *term.Term:
		c := fr.p.concretize(v, what)
		if k.signed {
			return sx(c, k.w)
		}
		return int64(c)
	}
	panic(fmt.Sprintf("toInt %T", v))
}

func (fr *frame) slice(ins *ssa.Slice, x, lo, hi, max value) value {
	p := fr.p
	var ln, cp int
	switch x := x.(type) {
	case string, *symstr:
		ln = strLen(x)
		cp = ln
	case []value:
		ln, cp = len(x), cap(x)
	case *value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		ln = len((*x).(array))
		cp = ln
	case wordslice:
		p.unsupported("slicing a reinterpreted slice")
	}
	// symbolic bounds: check first so the out-of-range region is one path
	bound := func(v value, t ssa.Value, def int, lim int) int64 {
		if v == nil {
			return int64(def)
		}
		if s, ok := v.(*term.Term); ok {
			k, _ := intKind(t.Type())
			var c *term.Term
			if k.signed {
				c = p.tab.SExt(s, 64)
			} else {
				c = p.tab.ZExt(s, 64)
			}
			if !p.branch(V(p.tab.Ule(c, p.tab.Const(64, uint64(lim))))) {
				fr.rtPanic("slice bounds out of range")
			}
			return int64(p.concretize(c, "slice bound"))
		}
		return fr.toInt(v, t.Type(), "slice bound")
	}
	m := bound(max, ins.Max, cp, cp)
	h := bound(hi, ins.High, ln, cp)
	l := bound(lo, ins.Low, 0, cp)
	if m < 0 || m > int64(cp) || h < 0 || h > m || l < 0 || l > h {
		fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
	}
	switch x := x.(type) {
	case string:
		return x[l:h]
	case *symstr:
		return mkStr(x.b[l:h])
	case []value:
		if x == nil {
			return x
		}
		return x[l:h:m]
	case *value:
		return []value((*x).(array))[l:h:m]
	}
	p.unsupported("slice of %T", x)
	return nil
}

// ---- maps

func (p *path) mapFind(m *mapv, k value) int {
	if m == nil || m.n == 0 {
		return -1
	}
	h, conc := hashKey(k)
	if conc {
		if _, isF := k.(uint64); isF {
			if kk, ok := intKind(m.kt); ok && kk.float {
				p.unsupported("float map keys")
			}
		}
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.symKeys == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c2 := hashKey(m.keys[i]); c2 {
				continue
			}
		}
		if p.branch(p.equals(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (p *path) mapSet(m *mapv, k, v value) {
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	if h, ok := hashKey(k); ok {
		m.idx[h] = len(m.keys)
	} else {
		m.symKeys++
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
	m.n++
}

func (p *path) mapDelete(m *mapv, k value) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if h, ok := hashKey(m.keys[i]); ok {
		delete(m.idx, h)
	} else {
		m.symKeys--
	}
}

func (m *mapv) liveIdx() []int {
	var o []int
	if m == nil {
		return nil
	}
	for i, l := range m.live {
		if l {
			o = append(o, i)
		}
	}
	return o
}

type mapIter struct {
	m    *mapv
	todo []int
	pos  int
}

type strIter struct {
	s   value
	pos int
}

func (fr *frame) next(it value, isStr bool) value {
	p := fr.p
	switch it := it.(type) {
	case *mapIter:
		fr.touch(it.m, false)
		for it.pos < len(it.todo) {
			// optional exploration of iteration orders
			if p.mapPerm && len(it.todo)-it.pos > 1 {
				n := len(it.todo) - it.pos
				c := p.choose(n, "maporder")
				j := it.pos + c
				x := it.todo[j]
				copy(it.todo[it.pos+1:j+1], it.todo[it.pos:j])
				it.todo[it.pos] = x
			}
			i := it.todo[it.pos]
			it.pos++
			if it.m.live[i] {
				return tuple{true, it.m.keys[i], copyVal(it.m.vals[i])}
			}
		}
		return tuple{false, nil, nil}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return tuple{false, uint64(0), uint64(0)}
		}
		at := it.pos
		if s, ok := it.s.(string); ok {
			r, sz := utf8.DecodeRuneInString(s[at:])
			it.pos += sz
			return tuple{true, uint64(at), uint64(uint32(r))}
		}
		r, sz := p.decodeRune(it.s.(*symstr).b[at:])
		it.pos += sz
		return tuple{true, uint64(at), r}
	}
	panic(fmt.Sprintf("next on %T", it))
}

// choose picks 0..n-1 nondeterministically (a fresh symbolic byte).
func (p *path) choose(n int, name string) int {
	if n <= 1 {
		return 0
	}
	v := p.newVar(name, 8)
	p.assume(V(p.tab.Ult(v, p.tab.Const(8, uint64(n)))))
	for i := 0; i < n-1; i++ {
		if p.branchT(p.tab.Eq(v, p.tab.Const(8, uint64(i)))) {
			return i
		}
	}
	return n - 1
}
