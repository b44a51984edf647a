package term

import (
	"math/rand"
	"testing"
)

// TestSimplifier compares the simplified term with direct evaluation of the same
// expression on random models.
func TestSimplifier(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 20000; it++ {
		tb := NewTable()
		model := map[string]uint64{}
		type pv struct {
			x *Term
			v uint64
		}
		w := []uint8{8, 16, 64}[r.Intn(3)]
		var pool []pv
		for i := 0; i < 3; i++ {
			n := string(rune('a' + i))
			v := r.Uint64() & Mask(w)
			if r.Intn(3) == 0 {
				v &= 3
			}
			model[n] = v
			pool = append(pool, pv{tb.Var(n, w), v})
		}
		cs := []uint64{0, 1, 2, 0xff, 0x80, r.Uint64()}
		c := func() pv { v := cs[r.Intn(len(cs))] & Mask(w); return pv{tb.Const(w, v), v} }
		var bools []pv
		bools = append(bools, pv{tb.True, 1})
		b2 := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for i := 0; i < 12; i++ {
			a := pool[r.Intn(len(pool))]
			b := pool[r.Intn(len(pool))]
			if r.Intn(2) == 0 {
				b = c()
			}
			var p pv
			switch r.Intn(17) {
			case 0:
				p = pv{tb.Add(a.x, b.x), a.v + b.v}
			case 1:
				p = pv{tb.Sub(a.x, b.x), a.v - b.v}
			case 2:
				p = pv{tb.Mul(a.x, b.x), a.v * b.v}
			case 3:
				p = pv{tb.BAnd(a.x, b.x), a.v & b.v}
			case 4:
				p = pv{tb.BOr(a.x, b.x), a.v | b.v}
			case 5:
				p = pv{tb.BXor(a.x, b.x), a.v ^ b.v}
			case 6:
				s := uint64(r.Intn(int(w) + 2))
				p = pv{tb.Shl(a.x, tb.Const(w, s)), a.v << s}
			case 7:
				s := uint64(r.Intn(int(w) + 2))
				p = pv{tb.Lshr(a.x, tb.Const(w, s)), a.v >> s}
			case 8:
				s := uint64(r.Intn(int(w) + 2))
				p = pv{tb.Ashr(a.x, tb.Const(w, s)), uint64(sext(a.v, w) >> s)}
			case 9:
				n := uint8(1 + r.Intn(int(w)))
				lo := uint8(r.Intn(int(w-n) + 1))
				e := tb.Extract(a.x, lo, n)
				p = pv{tb.ZExt(e, w), (a.v >> lo) & Mask(n)}
			case 10:
				n := uint8(1 + r.Intn(int(w)))
				e := tb.Extract(a.x, 0, n)
				p = pv{tb.SExt(e, w), uint64(sext(a.v, n))}
			case 11:
				q := bools[r.Intn(len(bools))]
				v := b.v
				if q.v == 1 {
					v = a.v
				}
				p = pv{tb.Ite(q.x, a.x, b.x), v}
			case 12:
				if b.v == 0 || !b.x.IsConst() {
					continue
				}
				p = pv{tb.UDiv(a.x, b.x), a.v / b.v}
			case 13:
				if b.v == 0 || !b.x.IsConst() {
					continue
				}
				p = pv{tb.SRem(a.x, b.x), 0}
				if sext(b.v, w) != -1 {
					p.v = uint64(sext(a.v, w) % sext(b.v, w))
				}
			default:
				var q pv
				switch r.Intn(8) {
				case 0:
					q = pv{tb.Eq(a.x, b.x), b2(a.v == b.v)}
				case 1:
					q = pv{tb.Ult(a.x, b.x), b2(a.v < b.v)}
				case 2:
					q = pv{tb.Ule(a.x, b.x), b2(a.v <= b.v)}
				case 3:
					q = pv{tb.Slt(a.x, b.x), b2(sext(a.v, w) < sext(b.v, w))}
				case 4:
					q = pv{tb.Sle(a.x, b.x), b2(sext(a.v, w) <= sext(b.v, w))}
				case 5:
					x, y := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
					q = pv{tb.And(x.x, y.x), x.v & y.v}
				case 6:
					x, y := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
					q = pv{tb.Or(x.x, y.x), x.v | y.v}
				case 7:
					x := bools[r.Intn(len(bools))]
					q = pv{tb.Not(x.x), 1 - x.v}
				}
				bools = append(bools, q)
				if got := Eval(q.x, model, map[int32]uint64{}); got != q.v {
					t.Fatalf("bool mismatch %v got %d want %d", q.x, got, q.v)
				}
				continue
			}
			p.v &= Mask(w)
			if got := Eval(p.x, model, map[int32]uint64{}); got != p.v {
				t.Fatalf("mismatch %v got %x want %x (op operands %v %v)", p.x, got, p.v, a.x, b.x)
			}
			pool = append(pool, p)
		}
	}
}
