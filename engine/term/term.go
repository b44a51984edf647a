// Package term implements hash-consed bit-vector and boolean terms with
// aggressive local simplification.
package term

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSExt
)

// Term is an immutable hash-consed expression. W is the width in bits; 0 means bool.
type Term struct {
	Op      Op
	W       uint8
	ID      int32
	H       uint64 // structural hash, the same in every table
	K       uint64 // const value, var index, or extract low bit
	A, B, C *Term
	Name    string // var name
}

type key struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

// Table owns terms.
type Table struct {
	m     map[key]*Term
	vars  map[string]*Term
	N     int32
	True  *Term
	False *Term
	small [65][257]*Term
}

func NewTable() *Table {
	t := &Table{m: make(map[key]*Term, 1<<14), vars: map[string]*Term{}}
	t.False = t.mk(key{op: OConst, w: 0, k: 0}, nil, nil, nil)
	t.True = t.mk(key{op: OConst, w: 0, k: 1}, nil, nil, nil)
	return t
}

func id(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func (t *Table) mk(k key, a, b, c *Term) *Term {
	k.a, k.b, k.c = id(a), id(b), id(c)
	if x, ok := t.m[k]; ok {
		return x
	}
	x := &Term{Op: k.op, W: k.w, ID: t.N, K: k.k, A: a, B: b, C: c}
	x.H = mix(mix(mix(mix(uint64(k.op)<<8|uint64(k.w), k.k), hash(a)), hash(b)), hash(c))
	t.N++
	t.m[k] = x
	return x
}

func hash(t *Term) uint64 {
	if t == nil {
		return 0x9e3779b97f4a7c15
	}
	return t.H
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h + 0x632be59bd9b4e019
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Mask(w uint8) uint64 { return mask(w) }

// Const makes a bit-vector constant.
func (t *Table) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if x := t.small[w][v]; x != nil {
			return x
		}
		x := t.mk(key{op: OConst, w: w, k: v}, nil, nil, nil)
		t.small[w][v] = x
		return x
	}
	return t.mk(key{op: OConst, w: w, k: v}, nil, nil, nil)
}

func (t *Table) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

// Var makes (or finds) a variable.
func (t *Table) Var(name string, w uint8) *Term {
	if x, ok := t.vars[name]; ok {
		if x.W != w {
			panic("term: variable width mismatch " + name)
		}
		return x
	}
	x := &Term{Op: OVar, W: w, ID: t.N, Name: name}
	x.H = uint64(w) + 77
	for i := 0; i < len(name); i++ {
		x.H = mix(x.H, uint64(name[i]))
	}
	t.N++
	t.vars[name] = x
	return x
}

func (x *Term) IsConst() bool { return x.Op == OConst }
func (x *Term) IsTrue() bool  { return x.Op == OConst && x.W == 0 && x.K == 1 }
func (x *Term) IsFalse() bool { return x.Op == OConst && x.W == 0 && x.K == 0 }

// SInt is the constant as a signed integer.
func (x *Term) SInt() int64 { return sext(x.K, x.W) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// ---- booleans

func (t *Table) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return t.Bool(a.K == 0)
	case ONot:
		return a.A
	case OUlt:
		return t.Ule(a.B, a.A)
	case OUle:
		return t.Ult(a.B, a.A)
	case OSlt:
		return t.Sle(a.B, a.A)
	case OSle:
		return t.Slt(a.B, a.A)
	}
	return t.mk(key{op: ONot}, a, nil, nil)
}

func (t *Table) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.K == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.isNeg(a, b) {
		return t.False
	}
	if a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OAnd}, a, b, nil)
}

func (t *Table) isNeg(a, b *Term) bool {
	if a.Op == ONot && a.A == b || b.Op == ONot && b.A == a {
		return true
	}
	switch a.Op {
	case OUlt:
		return b.Op == OUle && b.A == a.B && b.B == a.A
	case OUle:
		return b.Op == OUlt && b.A == a.B && b.B == a.A
	case OSlt:
		return b.Op == OSle && b.A == a.B && b.B == a.A
	case OSle:
		return b.Op == OSlt && b.A == a.B && b.B == a.A
	}
	return false
}

func (t *Table) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.K == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.K == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.isNeg(a, b) {
		return t.True
	}
	if a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OOr}, a, b, nil)
}

func (t *Table) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.K == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return c
		}
		if a.IsFalse() && b.IsTrue() {
			return t.Not(c)
		}
		if a.IsTrue() {
			return t.Or(c, b)
		}
		if a.IsFalse() {
			return t.And(t.Not(c), b)
		}
		if b.IsTrue() {
			return t.Or(t.Not(c), a)
		}
		if b.IsFalse() {
			return t.And(c, a)
		}
	}
	if c.Op == ONot {
		return t.Ite(c.A, b, a)
	}
	// nested same condition
	if a.Op == OIte && a.A == c {
		a = a.B
	}
	if b.Op == OIte && b.A == c {
		b = b.C
	}
	if a == b {
		return a
	}
	return t.mk(key{op: OIte, w: a.W}, c, a, b)
}

// iteConst reports whether x is a (small) tree of ites with constant leaves.
func iteConst(x *Term, n *int) bool {
	*n++
	if *n > 80 {
		return false
	}
	if x.Op == OConst {
		return true
	}
	return x.Op == OIte && iteConst(x.B, n) && iteConst(x.C, n)
}

func isIteConst(x *Term) bool {
	n := 0
	return x.Op == OIte && iteConst(x, &n)
}

func (t *Table) mapIte(x *Term, f func(*Term) *Term) *Term {
	if x.Op == OIte {
		return t.Ite(x.A, t.mapIte(x.B, f), t.mapIte(x.C, f))
	}
	return f(x)
}

// hasConstParts tells whether x is a concat with some constant chunk.
func (t *Table) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.K == b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 0 {
		if b.IsConst() {
			if b.K == 1 {
				return a
			}
			return t.Not(a)
		}
		if a.H > b.H {
			a, b = b, a
		}
		return t.mk(key{op: OEq}, a, b, nil)
	}
	if b.IsConst() {
		switch a.Op {
		case OIte:
			if isIteConst(a) {
				return t.mapIte(a, func(x *Term) *Term { return t.Bool(x.K == b.K) })
			}
			if a.B.IsConst() {
				if a.B.K != b.K {
					return t.And(t.Not(a.A), t.Eq(a.C, b))
				}
				return t.Or(a.A, t.Eq(a.C, b))
			}
			if a.C.IsConst() {
				if a.C.K != b.K {
					return t.And(a.A, t.Eq(a.B, b))
				}
				return t.Or(t.Not(a.A), t.Eq(a.B, b))
			}
		case OConcat:
			hw, lw := a.A.W, a.B.W
			return t.And(t.Eq(a.A, t.Const(hw, b.K>>lw)), t.Eq(a.B, t.Const(lw, b.K)))
		case OBXor:
			if a.B.IsConst() {
				return t.Eq(a.A, t.Const(a.W, b.K^a.B.K))
			}
		case OAdd:
			if a.B.IsConst() {
				return t.Eq(a.A, t.Const(a.W, b.K-a.B.K))
			}
		case OSExt:
			iw := a.A.W
			lo := b.K & mask(iw)
			if uint64(sext(lo, iw))&mask(a.W) != b.K {
				return t.False
			}
			return t.Eq(a.A, t.Const(iw, lo))
		}
		return t.mk(key{op: OEq}, a, b, nil)
	}
	// concat vs concat with equal split
	if a.Op == OConcat && b.Op == OConcat {
		if a.B.W == b.B.W {
			return t.And(t.Eq(a.A, b.A), t.Eq(a.B, b.B))
		}
	}
	if a.Op == OConcat && a.A.IsConst() || b.Op == OConcat && b.A.IsConst() {
		if b.Op == OConcat && b.A.IsConst() {
			a, b = b, a
		}
		if b.Op == OAdd || b.Op == OSub || b.Op == OMul || b.Op == OVar && b.W > 32 {
			if a.H > b.H {
				a, b = b, a
			}
			return t.mk(key{op: OEq}, a, b, nil)
		}
		lw := a.B.W
		return t.And(t.Eq(t.Extract(b, lw, b.W-lw), a.A), t.Eq(t.Extract(b, 0, lw), a.B))
	}
	if a.Op == OBXor && b.Op == OBXor && a.B == b.B {
		return t.Eq(a.A, b.A)
	}
	if a.Op == OAdd && b.Op == OAdd && a.B == b.B {
		return t.Eq(a.A, b.A)
	}
	// x + c == x
	if a.Op == OAdd && a.A == b && a.B.IsConst() || b.Op == OAdd && b.A == a && b.B.IsConst() {
		return t.False // c != 0 by construction
	}
	if a.Op == OAdd && b.Op == OAdd && a.A == b.A && a.B.IsConst() && b.B.IsConst() {
		return t.Bool(a.B.K == b.B.K)
	}
	if a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OEq}, a, b, nil)
}

func (t *Table) cmp(op Op, a, b *Term) *Term {
	return t.mk(key{op: op}, a, b, nil)
}

// zero-extension view: returns inner term if x = concat(0, inner)
func zinner(x *Term) *Term {
	if x.Op == OConcat && x.A.IsConst() && x.A.K == 0 {
		return x.B
	}
	return nil
}

// range of unsigned values (cheap)
func urange(x *Term, d int) (lo, hi uint64) {
	switch x.Op {
	case OConst:
		return x.K, x.K
	case OConcat:
		if x.A.IsConst() && x.A.K == 0 {
			l, h := urange(x.B, d+1)
			return l, h
		}
	case OIte:
		if d < 6 {
			l1, h1 := urange(x.B, d+1)
			l2, h2 := urange(x.C, d+1)
			if l2 < l1 {
				l1 = l2
			}
			if h2 > h1 {
				h1 = h2
			}
			return l1, h1
		}
	case OURem:
		if x.B.IsConst() && x.B.K > 0 {
			return 0, x.B.K - 1
		}
	case OBAnd:
		if x.B.IsConst() {
			return 0, x.B.K
		}
	case OUDiv:
		if x.B.IsConst() && x.B.K > 0 && d < 6 {
			l, h := urange(x.A, d+1)
			return l / x.B.K, h / x.B.K
		}
	}
	return 0, mask(x.W)
}

func (t *Table) Ult(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.K < b.K)
	}
	al, ah := urange(a, 0)
	bl, bh := urange(b, 0)
	if ah < bl {
		return t.True
	}
	if al >= bh {
		return t.False
	}
	if b.IsConst() && b.K == 1 {
		return t.Eq(a, t.Const(a.W, 0))
	}
	if a.IsConst() && a.K == 0 {
		return t.Not(t.Eq(b, a))
	}
	if r := t.pushCmp(OUlt, a, b, t.Ult); r != nil {
		return r
	}
	if ia, ib := zinner(a), zinner(b); ia != nil && ib != nil && ia.W == ib.W {
		return t.Ult(ia, ib)
	} else if ia != nil && b.IsConst() && b.K <= mask(ia.W) {
		return t.Ult(ia, t.Const(ia.W, b.K))
	} else if ib != nil && a.IsConst() && a.K <= mask(ib.W) {
		return t.Ult(t.Const(ib.W, a.K), ib)
	}
	if a.Op == OConcat && b.Op == OConcat && a.A.W == b.A.W {
		if a.A == b.A {
			return t.Ult(a.B, b.B)
		}
		if a.B == b.B {
			return t.Ult(a.A, b.A)
		}
	}
	return t.cmp(OUlt, a, b)
}

func (t *Table) Ule(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.K <= b.K)
	}
	al, ah := urange(a, 0)
	bl, bh := urange(b, 0)
	if ah <= bl {
		return t.True
	}
	if al > bh {
		return t.False
	}
	if a.IsConst() && a.K == 1 {
		return t.Not(t.Eq(b, t.Const(b.W, 0)))
	}
	if b.IsConst() && b.K == 0 {
		return t.Eq(a, b)
	}
	if r := t.pushCmp(OUle, a, b, t.Ule); r != nil {
		return r
	}
	if ia, ib := zinner(a), zinner(b); ia != nil && ib != nil && ia.W == ib.W {
		return t.Ule(ia, ib)
	} else if ia != nil && b.IsConst() && b.K <= mask(ia.W) {
		return t.Ule(ia, t.Const(ia.W, b.K))
	} else if ib != nil && a.IsConst() && a.K <= mask(ib.W) {
		return t.Ule(t.Const(ib.W, a.K), ib)
	}
	return t.cmp(OUle, a, b)
}

func (t *Table) pushCmp(op Op, a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.IsConst() && isIteConst(b) {
		return t.mapIte(b, func(x *Term) *Term { return f(a, x) })
	}
	if b.IsConst() && isIteConst(a) {
		return t.mapIte(a, func(x *Term) *Term { return f(x, b) })
	}
	return nil
}

func (t *Table) Slt(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.SInt() < b.SInt())
	}
	sm := uint64(1) << (a.W - 1)
	if b.IsConst() && b.K == sm {
		return t.False
	}
	if a.IsConst() && a.K == sm-1 {
		return t.False
	}
	// both known non-negative: unsigned compare
	if _, ah := urange(a, 0); ah < sm {
		if _, bh := urange(b, 0); bh < sm {
			return t.Ult(a, b)
		}
	}
	if r := t.pushCmp(OSlt, a, b, t.Slt); r != nil {
		return r
	}
	if a.Op == OSExt && b.Op == OSExt && a.A.W == b.A.W {
		return t.Slt(a.A, b.A)
	}
	return t.cmp(OSlt, a, b)
}

func (t *Table) Sle(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.SInt() <= b.SInt())
	}
	sm := uint64(1) << (a.W - 1)
	if a.IsConst() && a.K == sm {
		return t.True
	}
	if b.IsConst() && b.K == sm-1 {
		return t.True
	}
	if _, ah := urange(a, 0); ah < sm {
		if _, bh := urange(b, 0); bh < sm {
			return t.Ule(a, b)
		}
	}
	if r := t.pushCmp(OSle, a, b, t.Sle); r != nil {
		return r
	}
	if a.Op == OSExt && b.Op == OSExt && a.A.W == b.A.W {
		return t.Sle(a.A, b.A)
	}
	return t.cmp(OSle, a, b)
}

// ---- arithmetic

func (t *Table) liftIte2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.IsConst() && isIteConst(b) {
		return t.mapIte(b, func(x *Term) *Term { return f(a, x) })
	}
	if b.IsConst() && isIteConst(a) {
		return t.mapIte(a, func(x *Term) *Term { return f(x, b) })
	}
	return nil
}

func (t *Table) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return t.Const(a.W, a.K+b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OAdd && a.B.IsConst() {
			return t.Add(a.A, t.Const(a.W, a.B.K+b.K))
		}
		if r := t.liftIte2(a, b, t.Add); r != nil {
			return r
		}
		return t.mk(key{op: OAdd, w: a.W}, a, b, nil)
	}
	// move constants outward
	if a.Op == OAdd && a.B.IsConst() {
		return t.Add(t.Add(a.A, b), a.B)
	}
	if b.Op == OAdd && b.B.IsConst() {
		return t.Add(t.Add(a, b.A), b.B)
	}
	// (x - y) + y
	if a.Op == OSub && a.B == b {
		return a.A
	}
	if b.Op == OSub && b.B == a {
		return b.A
	}
	if a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OAdd, w: a.W}, a, b, nil)
}

func (t *Table) Sub(a, b *Term) *Term {
	if a == b {
		return t.Const(a.W, 0)
	}
	if b.IsConst() {
		return t.Add(a, t.Const(a.W, -b.K))
	}
	if a.Op == OAdd && a.B.IsConst() {
		return t.Add(t.Sub(a.A, b), a.B)
	}
	if b.Op == OAdd && b.B.IsConst() {
		return t.Add(t.Sub(a, b.A), t.Const(a.W, -b.B.K))
	}
	// (x + y) - y
	if a.Op == OAdd {
		if a.A == b {
			return a.B
		}
		if a.B == b {
			return a.A
		}
	}
	// x - (x - y)
	if b.Op == OSub && b.A == a {
		return b.B
	}
	// a - (a + y) = -y
	if b.Op == OAdd {
		if b.A == a {
			return t.Neg(b.B)
		}
		if b.B == a {
			return t.Neg(b.A)
		}
	}
	// (x - y) - x
	if a.Op == OSub && a.A == b {
		return t.Neg(a.B)
	}
	if r := t.liftIte2(a, b, t.Sub); r != nil {
		return r
	}
	return t.mk(key{op: OSub, w: a.W}, a, b, nil)
}

func (t *Table) Neg(a *Term) *Term { return t.Sub(t.Const(a.W, 0), a) }

func (t *Table) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return t.Const(a.W, a.K*b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		if b.K == 1 {
			return a
		}
		if bits.OnesCount64(b.K) == 1 {
			return t.Shl(a, t.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
		}
		if r := t.liftIte2(a, b, t.Mul); r != nil {
			return r
		}
	}
	if !b.IsConst() && a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OMul, w: a.W}, a, b, nil)
}

// UDiv etc. assume a non-zero divisor (the interpreter checks).
func (t *Table) UDiv(a, b *Term) *Term {
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return t.Const(a.W, a.K/b.K)
		}
		if bits.OnesCount64(b.K) == 1 {
			return t.Lshr(a, t.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
		}
		if r := t.liftIte2(a, b, t.UDiv); r != nil {
			return r
		}
	}
	return t.mk(key{op: OUDiv, w: a.W}, a, b, nil)
}

func (t *Table) URem(a, b *Term) *Term {
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return t.Const(a.W, a.K%b.K)
		}
		if bits.OnesCount64(b.K) == 1 {
			return t.BAnd(a, t.Const(a.W, b.K-1))
		}
		if r := t.liftIte2(a, b, t.URem); r != nil {
			return r
		}
	}
	return t.mk(key{op: OURem, w: a.W}, a, b, nil)
}

func (t *Table) SDiv(a, b *Term) *Term {
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			x, y := a.SInt(), b.SInt()
			if y == -1 {
				return t.Const(a.W, uint64(-x))
			}
			return t.Const(a.W, uint64(x/y))
		}
		sm := uint64(1) << (a.W - 1)
		if _, ah := urange(a, 0); ah < sm && b.K < sm {
			return t.UDiv(a, b)
		}
		if r := t.liftIte2(a, b, t.SDiv); r != nil {
			return r
		}
	}
	return t.mk(key{op: OSDiv, w: a.W}, a, b, nil)
}

func (t *Table) SRem(a, b *Term) *Term {
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			x, y := a.SInt(), b.SInt()
			if y == -1 {
				return t.Const(a.W, 0)
			}
			return t.Const(a.W, uint64(x%y))
		}
		sm := uint64(1) << (a.W - 1)
		if _, ah := urange(a, 0); ah < sm && b.K < sm {
			return t.URem(a, b)
		}
		if r := t.liftIte2(a, b, t.SRem); r != nil {
			return r
		}
	}
	return t.mk(key{op: OSRem, w: a.W}, a, b, nil)
}

// ---- bitwise

// chunks of a concat, most significant first
func chunks(x *Term, out []*Term) []*Term {
	if x.Op == OConcat {
		out = chunks(x.A, out)
		return chunks(x.B, out)
	}
	return append(out, x)
}

// zipChunks splits a and b at common cut points and applies f; returns nil when
// neither has concat structure or a constant that could be split.
func (t *Table) zipChunks(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.Op != OConcat && b.Op != OConcat {
		return nil
	}
	ca, cb := chunks(a, nil), chunks(b, nil)
	var res *Term
	i, j := 0, 0
	var ra, rb uint8 // remaining bits in chunk (from the top)
	ra, rb = ca[0].W, cb[0].W
	for i < len(ca) && j < len(cb) {
		n := ra
		if rb < n {
			n = rb
		}
		x := t.Extract(ca[i], ra-n, n)
		y := t.Extract(cb[j], rb-n, n)
		z := f(x, y)
		if z == nil {
			return nil
		}
		if res == nil {
			res = z
		} else {
			res = t.Concat(res, z)
		}
		ra -= n
		rb -= n
		if ra == 0 {
			i++
			if i < len(ca) {
				ra = ca[i].W
			}
		}
		if rb == 0 {
			j++
			if j < len(cb) {
				rb = cb[j].W
			}
		}
	}
	return res
}

func (t *Table) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		return t.Const(a.W, a.K&b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		if b.K == mask(b.W) {
			return a
		}
		// contiguous mask -> concat of zeros and extract
		tz := uint8(bits.TrailingZeros64(b.K))
		n := uint8(bits.OnesCount64(b.K))
		if b.K>>tz == mask(n) {
			r := t.Extract(a, tz, n)
			if tz > 0 {
				r = t.Concat(r, t.Const(tz, 0))
			}
			if tz+n < a.W {
				r = t.Concat(t.Const(a.W-tz-n, 0), r)
			}
			return r
		}
		// inverted contiguous mask
		inv := ^b.K & mask(b.W)
		tz = uint8(bits.TrailingZeros64(inv))
		n = uint8(bits.OnesCount64(inv))
		if inv>>tz == mask(n) {
			var r *Term
			cat := func(x *Term) {
				if r == nil {
					r = x
				} else {
					r = t.Concat(r, x)
				}
			}
			if tz+n < a.W {
				cat(t.Extract(a, tz+n, a.W-tz-n))
			}
			cat(t.Const(n, 0))
			if tz > 0 {
				cat(t.Extract(a, 0, tz))
			}
			return r
		}
		if r := t.liftIte2(a, b, t.BAnd); r != nil {
			return r
		}
	}
	if r := t.zipChunks(a, b, t.BAnd); r != nil {
		return r
	}
	if !b.IsConst() && a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OBAnd, w: a.W}, a, b, nil)
}

func (t *Table) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		return t.Const(a.W, a.K|b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if b.K == mask(b.W) {
			return b
		}
		// split by runs of ones: ones stay constant, zeros keep a
		var r *Term
		hi := int(a.W)
		nruns := 0
		for hi > 0 {
			bit := b.K >> uint(hi-1) & 1
			lo := hi - 1
			for lo > 0 && b.K>>uint(lo-1)&1 == bit {
				lo--
			}
			nruns++
			if nruns > 5 {
				r = nil
				break
			}
			var x *Term
			if bit == 1 {
				x = t.Const(uint8(hi-lo), ^uint64(0))
			} else {
				x = t.Extract(a, uint8(lo), uint8(hi-lo))
			}
			if r == nil {
				r = x
			} else {
				r = t.Concat(r, x)
			}
			hi = lo
		}
		if r != nil && hi == 0 {
			return r
		}
		if r := t.liftIte2(a, b, t.BOr); r != nil {
			return r
		}
	}
	if r := t.zipChunks(a, b, t.BOr); r != nil {
		return r
	}
	if !b.IsConst() && a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OBOr, w: a.W}, a, b, nil)
}

func (t *Table) BXor(a, b *Term) *Term {
	if a == b {
		return t.Const(a.W, 0)
	}
	if a.IsConst() && b.IsConst() {
		return t.Const(a.W, a.K^b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OBXor && a.B.IsConst() {
			return t.BXor(a.A, t.Const(a.W, a.B.K^b.K))
		}
		if r := t.liftIte2(a, b, t.BXor); r != nil {
			return r
		}
	}
	if r := t.zipChunks(a, b, t.BXor); r != nil {
		return r
	}
	if !b.IsConst() && a.H > b.H {
		a, b = b, a
	}
	return t.mk(key{op: OBXor, w: a.W}, a, b, nil)
}

func (t *Table) BNot(a *Term) *Term { return t.BXor(a, t.Const(a.W, ^uint64(0))) }

func (t *Table) Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.K >= uint64(a.W) {
			return t.Const(a.W, 0)
		}
		if b.K == 0 {
			return a
		}
		s := uint8(b.K)
		return t.Concat(t.Extract(a, 0, a.W-s), t.Const(s, 0))
	}
	if isIteConst(b) {
		return t.mapIte(b, func(x *Term) *Term { return t.Shl(a, x) })
	}
	return t.mk(key{op: OShl, w: a.W}, a, b, nil)
}

func (t *Table) Lshr(a, b *Term) *Term {
	if b.IsConst() {
		if b.K >= uint64(a.W) {
			return t.Const(a.W, 0)
		}
		if b.K == 0 {
			return a
		}
		s := uint8(b.K)
		return t.Concat(t.Const(s, 0), t.Extract(a, s, a.W-s))
	}
	if isIteConst(b) {
		return t.mapIte(b, func(x *Term) *Term { return t.Lshr(a, x) })
	}
	return t.mk(key{op: OLshr, w: a.W}, a, b, nil)
}

func (t *Table) Ashr(a, b *Term) *Term {
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		s := uint8(a.W - 1)
		if b.K < uint64(a.W) {
			s = uint8(b.K)
		}
		if a.IsConst() {
			return t.Const(a.W, uint64(a.SInt()>>s))
		}
		return t.SExt(t.Extract(a, s, a.W-s), a.W)
	}
	return t.mk(key{op: OAshr, w: a.W}, a, b, nil)
}

// Concat puts a above b.
func (t *Table) Concat(a, b *Term) *Term {
	w := a.W + b.W
	if a.IsConst() && b.IsConst() {
		return t.Const(w, a.K<<b.W|b.K)
	}
	// right-associate: (x.y).b -> x.(y.b)
	if a.Op == OConcat {
		return t.Concat(a.A, t.Concat(a.B, b))
	}
	// merge adjacent extracts / constants at the boundary
	first, rest := b, (*Term)(nil)
	if b.Op == OConcat {
		first, rest = b.A, b.B
	}
	var m *Term
	if a.IsConst() && first.IsConst() {
		m = t.Const(a.W+first.W, a.K<<first.W|first.K)
	} else if a.Op == OExtract && first.Op == OExtract && a.A == first.A && a.K == first.K+uint64(first.W) {
		m = t.Extract(a.A, uint8(first.K), a.W+first.W)
	} else if a.Op == OExtract && rest == nil && a.K == uint64(b.W) && (a.A.Op == OAdd || a.A.Op == OSub || a.A.Op == OMul) &&
		t.Extract(a.A, 0, b.W) == b {
		// the low part of arithmetic was computed at its own width
		return t.Extract(a.A, 0, a.W+b.W)
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return t.Concat(m, rest)
	}
	return t.mk(key{op: OConcat, w: w}, a, b, nil)
}

// Extract n bits starting at lo.
func (t *Table) Extract(a *Term, lo, n uint8) *Term {
	if lo == 0 && n == a.W {
		return a
	}
	switch a.Op {
	case OConst:
		return t.Const(n, a.K>>lo)
	case OExtract:
		return t.Extract(a.A, uint8(a.K)+lo, n)
	case OConcat:
		lw := a.B.W
		if lo >= lw {
			return t.Extract(a.A, lo-lw, n)
		}
		if lo+n <= lw {
			return t.Extract(a.B, lo, n)
		}
		return t.Concat(t.Extract(a.A, 0, lo+n-lw), t.Extract(a.B, lo, lw-lo))
	case OIte:
		if isIteConst(a) || a.B.IsConst() || a.C.IsConst() {
			return t.Ite(a.A, t.Extract(a.B, lo, n), t.Extract(a.C, lo, n))
		}
	case OBXor:
		return t.BXor(t.Extract(a.A, lo, n), t.Extract(a.B, lo, n))
	case OBAnd:
		return t.BAnd(t.Extract(a.A, lo, n), t.Extract(a.B, lo, n))
	case OBOr:
		return t.BOr(t.Extract(a.A, lo, n), t.Extract(a.B, lo, n))
	case OSExt:
		if lo+n <= a.A.W {
			return t.Extract(a.A, lo, n)
		}
		if lo < a.A.W {
			return t.SExt(t.Extract(a.A, lo, a.A.W-lo), n)
		}
		return t.SExt(t.Extract(a.A, a.A.W-1, 1), n)
	case OAdd, OSub, OMul:
		if lo == 0 {
			x, y := t.Extract(a.A, 0, n), t.Extract(a.B, 0, n)
			switch a.Op {
			case OAdd:
				return t.Add(x, y)
			case OSub:
				return t.Sub(x, y)
			default:
				return t.Mul(x, y)
			}
		}
	}
	return t.mk(key{op: OExtract, w: n, k: uint64(lo)}, a, nil, nil)
}

func (t *Table) ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	return t.Concat(t.Const(w-a.W, 0), a)
}

func (t *Table) SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return t.Const(w, uint64(a.SInt()))
	}
	if a.Op == OSExt {
		return t.SExt(a.A, w)
	}
	if a.Op == OConcat && a.A.IsConst() && a.A.K>>(a.A.W-1) == 0 {
		return t.ZExt(a, w)
	}
	if isIteConst(a) {
		return t.mapIte(a, func(x *Term) *Term { return t.SExt(x, w) })
	}
	return t.mk(key{op: OSExt, w: w}, a, nil, nil)
}

// BoolToBV makes a bit-vector 0/1 of a boolean.
func (t *Table) BoolToBV(b *Term, w uint8) *Term {
	return t.Ite(b, t.Const(w, 1), t.Const(w, 0))
}

// ---- evaluation

// Eval evaluates x under a model (absent variables are zero). memo must be reset
// whenever the model changes.
func Eval(x *Term, model map[string]uint64, memo map[int32]uint64) uint64 {
	if x.Op == OConst {
		return x.K
	}
	if v, ok := memo[x.ID]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(y *Term) uint64 { return Eval(y, model, memo) }
	switch x.Op {
	case OVar:
		r = model[x.Name] & mask64(x.W)
	case ONot:
		r = 1 - ev(x.A)
	case OAnd:
		r = ev(x.A)
		if r == 1 {
			r = ev(x.B)
		}
	case OOr:
		r = ev(x.A)
		if r == 0 {
			r = ev(x.B)
		}
	case OEq:
		r = b2u(ev(x.A) == ev(x.B))
	case OUlt:
		r = b2u(ev(x.A) < ev(x.B))
	case OUle:
		r = b2u(ev(x.A) <= ev(x.B))
	case OSlt:
		r = b2u(sext(ev(x.A), x.A.W) < sext(ev(x.B), x.B.W))
	case OSle:
		r = b2u(sext(ev(x.A), x.A.W) <= sext(ev(x.B), x.B.W))
	case OIte:
		if ev(x.A) == 1 {
			r = ev(x.B)
		} else {
			r = ev(x.C)
		}
	case OAdd:
		r = ev(x.A) + ev(x.B)
	case OSub:
		r = ev(x.A) - ev(x.B)
	case OMul:
		r = ev(x.A) * ev(x.B)
	case OUDiv:
		if d := ev(x.B); d == 0 {
			r = ^uint64(0)
		} else {
			r = ev(x.A) / d
		}
	case OURem:
		if d := ev(x.B); d == 0 {
			r = ev(x.A)
		} else {
			r = ev(x.A) % d
		}
	case OSDiv:
		n, d := sext(ev(x.A), x.W), sext(ev(x.B), x.W)
		switch {
		case d == 0 && n >= 0:
			r = ^uint64(0)
		case d == 0:
			r = 1
		case d == -1:
			r = uint64(-n)
		default:
			r = uint64(n / d)
		}
	case OSRem:
		n, d := sext(ev(x.A), x.W), sext(ev(x.B), x.W)
		switch {
		case d == 0:
			r = uint64(n)
		case d == -1:
			r = 0
		default:
			r = uint64(n % d)
		}
	case OBAnd:
		r = ev(x.A) & ev(x.B)
	case OBOr:
		r = ev(x.A) | ev(x.B)
	case OBXor:
		r = ev(x.A) ^ ev(x.B)
	case OShl:
		if s := ev(x.B); s < uint64(x.W) {
			r = ev(x.A) << s
		}
	case OLshr:
		if s := ev(x.B); s < uint64(x.W) {
			r = ev(x.A) >> s
		}
	case OAshr:
		s := ev(x.B)
		if s >= uint64(x.W) {
			s = uint64(x.W) - 1
		}
		r = uint64(sext(ev(x.A), x.W) >> s)
	case OConcat:
		r = ev(x.A)<<x.B.W | ev(x.B)
	case OExtract:
		r = ev(x.A) >> x.K
	case OSExt:
		r = uint64(sext(ev(x.A), x.A.W))
	default:
		panic(fmt.Sprintf("eval op %d", x.Op))
	}
	if x.W == 0 {
		r &= 1
	} else {
		r &= mask(x.W)
	}
	memo[x.ID] = r
	return r
}

// Mask64 is all ones of width w (1 for booleans).
func Mask64(w uint8) uint64 { return mask64(w) }

func mask64(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (x *Term) String() string {
	switch x.Op {
	case OConst:
		if x.W == 0 {
			return fmt.Sprint(x.K == 1)
		}
		return fmt.Sprintf("%d:%d", x.SInt(), x.W)
	case OVar:
		return x.Name
	}
	names := [...]string{"const", "var", "not", "and", "or", "=", "u<", "u<=", "s<", "s<=", "ite", "+", "-", "*", "u/", "u%", "s/", "s%", "&", "|", "^", "<<", ">>u", ">>s", "++", "extract", "sext"}
	s := "(" + names[x.Op]
	if x.Op == OExtract {
		s += fmt.Sprintf("[%d+%d]", x.K, x.W)
	}
	for _, y := range []*Term{x.A, x.B, x.C} {
		if y != nil {
			s += " " + y.String()
		}
	}
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s + ")"
}
