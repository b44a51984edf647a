package smt

import (
	"bufio"
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"gosym/term"
)

// Many queries are plain integer arithmetic in which nothing can wrap around. Those
// are decided as linear integer arithmetic, which is far cheaper than bit-blasting:
// a bit-vector term t of width w is represented by an integer expression e with
// e = t (mod 2^w) and an interval that provably contains e. A comparison is
// translated only if the intervals show that e is the signed (unsigned) value itself.

type ival struct{ lo, hi int64 }

const ilim = int64(1) << 62

// lia is the translation state of one solver.
type lia struct {
	sub   *Solver
	bound map[int32]ival
	undo  [][]undoEnt // per stack level
	bad   int         // stack index of the first untranslatable conjunct, or -1
	seen  []*term.Term
}

type undoEnt struct {
	id  int32
	old ival
	had bool
}

func shr(w uint8) int64 {
	if w >= 63 {
		return ilim
	}
	return int64(1) << w
}

// within signed range of width w
func (r ival) signed(w uint8) bool {
	if w >= 64 {
		return true
	}
	h := int64(1) << (w - 1)
	return r.lo >= -h && r.hi < h
}

func (r ival) unsigned(w uint8) bool {
	if w >= 63 {
		return r.lo >= 0
	}
	return r.lo >= 0 && r.hi < int64(1)<<w
}

func (l *lia) varRange(x *term.Term) ival {
	if r, ok := l.bound[x.ID]; ok {
		return r
	}
	if x.W >= 64 {
		return ival{-1 << 63, 1<<63 - 1}
	}
	return ival{0, int64(1)<<x.W - 1}
}

// rng is the interval of the representation of a bit-vector term.
func (l *lia) rng(x *term.Term, memo map[int32]ival) (ival, bool) {
	if r, ok := memo[x.ID]; ok {
		return r, r.lo <= r.hi
	}
	r, ok := l.rng1(x, memo)
	if !ok {
		r = ival{1, 0}
	}
	memo[x.ID] = r
	return r, ok
}

func (l *lia) rng1(x *term.Term, memo map[int32]ival) (ival, bool) {
	switch x.Op {
	case term.OConst:
		v := cval(x)
		return ival{v, v}, true
	case term.OVar:
		return l.varRange(x), true
	case term.OAdd, term.OSub:
		a, ok := l.rng(x.A, memo)
		b, ok2 := l.rng(x.B, memo)
		if !ok || !ok2 || !narrow(a) || !narrow(b) {
			return ival{}, false
		}
		if x.Op == term.OSub {
			b = ival{-b.hi, -b.lo}
		}
		r := ival{a.lo + b.lo, a.hi + b.hi}
		return r, narrow(r)
	case term.OMul:
		a, ok := l.rng(x.A, memo)
		b, ok2 := l.rng(x.B, memo)
		if !ok || !ok2 || !(x.A.IsConst() || x.B.IsConst()) {
			return ival{}, false
		}
		if abs(a) != 0 && abs(b) != 0 {
			hi, _ := bits.Mul64(abs(a), abs(b))
			if hi != 0 || abs(a)*abs(b) > uint64(ilim) {
				return ival{}, false
			}
		}
		p := []int64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
		r := ival{p[0], p[0]}
		for _, v := range p {
			if v < r.lo {
				r.lo = v
			}
			if v > r.hi {
				r.hi = v
			}
		}
		return r, true
	case term.OIte:
		if !l.okBool(x.A, memo) {
			return ival{}, false
		}
		a, ok := l.rng(x.B, memo)
		b, ok2 := l.rng(x.C, memo)
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		return a, ok && ok2
	case term.OConcat:
		if x.A.IsConst() && x.A.K == 0 {
			r, ok := l.rng(x.B, memo)
			return r, ok && r.unsigned(x.B.W)
		}
	case term.OSExt:
		r, ok := l.rng(x.A, memo)
		return r, ok && r.signed(x.A.W)
	case term.OExtract:
		if x.K == 0 {
			return l.rng(x.A, memo)
		}
	}
	return ival{}, false
}

func narrow(r ival) bool { return r.lo > -ilim && r.hi < ilim }

func abs(r ival) uint64 {
	m := func(v int64) uint64 {
		if v < 0 {
			return uint64(-v)
		}
		return uint64(v)
	}
	a, b := m(r.lo), m(r.hi)
	if a > b {
		return a
	}
	return b
}

// okBool tells whether a boolean term is translatable in the present context.
func (l *lia) okBool(x *term.Term, memo map[int32]ival) bool {
	if r, ok := memo[x.ID]; ok {
		return r.lo <= r.hi
	}
	ok := l.okBool1(x, memo)
	if ok {
		memo[x.ID] = ival{0, 0}
	} else {
		memo[x.ID] = ival{1, 0}
	}
	return ok
}

func (l *lia) okBool1(x *term.Term, memo map[int32]ival) bool {
	switch x.Op {
	case term.OConst, term.OVar:
		return true
	case term.ONot:
		return l.okBool(x.A, memo)
	case term.OAnd, term.OOr:
		return l.okBool(x.A, memo) && l.okBool(x.B, memo)
	case term.OIte:
		return l.okBool(x.A, memo) && l.okBool(x.B, memo) && l.okBool(x.C, memo)
	case term.OEq:
		if x.A.W == 0 {
			return l.okBool(x.A, memo) && l.okBool(x.B, memo)
		}
		a, ok := l.rng(x.A, memo)
		b, ok2 := l.rng(x.B, memo)
		if !ok || !ok2 {
			return false
		}
		w := x.A.W
		return a.signed(w) && b.signed(w) || a.unsigned(w) && b.unsigned(w)
	case term.OSlt, term.OSle:
		a, ok := l.rng(x.A, memo)
		b, ok2 := l.rng(x.B, memo)
		return ok && ok2 && a.signed(x.A.W) && b.signed(x.A.W)
	case term.OUlt, term.OUle:
		a, ok := l.rng(x.A, memo)
		b, ok2 := l.rng(x.B, memo)
		return ok && ok2 && a.unsigned(x.A.W) && b.unsigned(x.A.W)
	}
	return false
}

// learn tightens variable bounds from a conjunct.
func (l *lia) learn(x *term.Term, pos bool, u *[]undoEnt) {
	switch x.Op {
	case term.ONot:
		l.learn(x.A, !pos, u)
	case term.OAnd:
		if pos {
			l.learn(x.A, true, u)
			l.learn(x.B, true, u)
		}
	case term.OOr:
		if !pos {
			l.learn(x.A, false, u)
			l.learn(x.B, false, u)
		}
	case term.OSle, term.OSlt, term.OUle, term.OUlt:
		a, b := x.A, x.B
		strict := x.Op == term.OSlt || x.Op == term.OUlt
		if !pos {
			a, b, strict = b, a, !strict
		}
		un := x.Op == term.OUle || x.Op == term.OUlt
		// a <= b (or <)
		switch {
		case a.Op == term.OVar && b.IsConst():
			r := l.varRange(a)
			k := b.SInt()
			if un && (k < 0 || a.W < 64 && r.lo < 0) {
				return
			}
			if un && a.W >= 64 {
				// the unsigned value is at most k < 2^63: also non-negative
				if r.lo < 0 {
					r.lo = 0
				}
			} else if a.W < 64 {
				if !un {
					return
				}
				k = int64(b.K)
			}
			if strict {
				if k == -1<<63 {
					return
				}
				k--
			}
			if k < r.hi {
				r.hi = k
			}
			l.set(a.ID, r, u)
		case b.Op == term.OVar && a.IsConst():
			r := l.varRange(b)
			k := a.SInt()
			if b.W < 64 {
				if !un {
					return
				}
				k = int64(a.K)
			} else if un && r.lo < 0 {
				return
			} else if un && k < 0 {
				return
			}
			if strict {
				if k == 1<<63-1 {
					return
				}
				k++
			}
			if k > r.lo {
				r.lo = k
			}
			l.set(b.ID, r, u)
		}
	}
}

func (l *lia) set(id int32, r ival, u *[]undoEnt) {
	if r.lo > r.hi {
		return
	}
	old, had := l.bound[id]
	*u = append(*u, undoEnt{id, old, had})
	l.bound[id] = r
}

func (l *lia) popTo(n int) {
	for len(l.undo) > n {
		u := l.undo[len(l.undo)-1]
		for i := len(u) - 1; i >= 0; i-- {
			if u[i].had {
				l.bound[u[i].id] = u[i].old
			} else {
				delete(l.bound, u[i].id)
			}
		}
		l.undo = l.undo[:len(l.undo)-1]
	}
	l.seen = l.seen[:n]
	if l.bad >= n {
		l.bad = -1
	}
}

// fits brings the translation context up to pc and tells whether pc and extra translate.
func (l *lia) fits(pc []*term.Term, extra *term.Term) bool {
	n := 0
	for n < len(l.seen) && n < len(pc) && l.seen[n] == pc[n] {
		n++
	}
	l.popTo(n)
	for i := n; i < len(pc); i++ {
		c := pc[i]
		if l.bad < 0 && !l.okBool(c, map[int32]ival{}) {
			l.bad = i
		}
		var u []undoEnt
		l.learn(c, true, &u)
		l.undo = append(l.undo, u)
		l.seen = append(l.seen, c)
	}
	if l.bad >= 0 {
		return false
	}
	return extra == nil || l.okBool(extra, map[int32]ival{})
}

// cval is the representation of a constant.
func cval(x *term.Term) int64 {
	if x.W <= 16 {
		return int64(x.K)
	}
	return x.SInt()
}

func iref(b *strings.Builder, x *term.Term) {
	switch x.Op {
	case term.OConst:
		if x.W == 0 {
			ref(b, x)
			return
		}
		v := cval(x)
		if v < 0 {
			b.WriteString("(- " + strconv.FormatUint(uint64(-v), 10) + ")")
		} else {
			b.WriteString(strconv.FormatInt(v, 10))
		}
	default:
		ref(b, x)
	}
}

// idefine writes the integer definitions of x and everything below it.
func idefine(b *strings.Builder, x *term.Term, defined map[int32]bool, vars *[]*term.Term) {
	if x == nil || x.Op == term.OConst || defined[x.ID] {
		return
	}
	switch x.Op {
	case term.OVar:
		defined[x.ID] = true
		*vars = append(*vars, x)
		s := "Int"
		if x.W == 0 {
			s = "Bool"
		}
		fmt.Fprintf(b, "(declare-const v%d %s)\n", x.ID, s)
		return
	case term.OConcat:
		idefine(b, x.B, defined, vars)
	default:
		idefine(b, x.A, defined, vars)
		idefine(b, x.B, defined, vars)
		idefine(b, x.C, defined, vars)
	}
	defined[x.ID] = true
	s := "Int"
	if x.W == 0 {
		s = "Bool"
	}
	fmt.Fprintf(b, "(define-fun t%d () %s ", x.ID, s)
	op := ""
	args := []*term.Term{x.A, x.B, x.C}
	switch x.Op {
	case term.ONot:
		op = "not"
	case term.OAnd:
		op = "and"
	case term.OOr:
		op = "or"
	case term.OEq:
		op = "="
	case term.OUlt, term.OSlt:
		op = "<"
	case term.OUle, term.OSle:
		op = "<="
	case term.OIte:
		op = "ite"
	case term.OAdd:
		op = "+"
	case term.OSub:
		op = "-"
	case term.OMul:
		op = "*"
	case term.OConcat:
		args = []*term.Term{x.B}
	case term.OSExt, term.OExtract:
		args = []*term.Term{x.A}
	}
	if op != "" {
		b.WriteByte('(')
		b.WriteString(op)
	}
	for _, a := range args {
		if a != nil {
			b.WriteByte(' ')
			iref(b, a)
		}
	}
	if op != "" {
		b.WriteByte(')')
	}
	b.WriteString(")\n")
}

// readIntModel parses ((v1 5) (v2 (- 3)) (v3 true)).
func readIntModel(r *bufio.Reader, vars []*term.Term, model map[string]uint64) error {
	byID := make(map[string]*term.Term, len(vars))
	for _, v := range vars {
		byID["v"+strconv.Itoa(int(v.ID))] = v
	}
	var sb strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return err
		}
		if c == '(' {
			depth++
		}
		if c == '(' || c == ')' {
			sb.WriteByte(' ')
		} else {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				break
			}
		}
	}
	f := strings.Fields(sb.String())
	for i := 0; i < len(f); i++ {
		v := byID[f[i]]
		if v == nil || i+1 >= len(f) {
			return fmt.Errorf("unexpected model entry %q", f[i])
		}
		i++
		neg := false
		if f[i] == "-" {
			neg = true
			i++
		}
		var x uint64
		switch f[i] {
		case "true":
			x = 1
		case "false":
		default:
			var err error
			if x, err = strconv.ParseUint(f[i], 10, 64); err != nil {
				return err
			}
		}
		if neg {
			x = -x
		}
		if v.W > 0 && v.W < 64 {
			x &= 1<<v.W - 1
		}
		model[v.Name] = x
	}
	return nil
}
