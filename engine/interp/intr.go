package interp

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

type intrinsic = func(fr *frame, args []value) value

const symPkg = HarnessRoot + "/sym"

var intrinsics map[string]intrinsic

func nop(fr *frame, args []value) value { return nil }

func resultZero(fn *ssa.Function) intrinsic {
	sig := fn.Signature
	return func(fr *frame, args []value) value { return zeroResults(sig) }
}

func (e *Engine) patternIntrinsic(fn *ssa.Function, name, pk string) intrinsic {
	switch {
	case strings.HasPrefix(pk, "go.uber.org/zap"), pk == "github.com/zhiqiangxu/util/logger",
		pk == "github.com/gogo/protobuf/proto", pk == "github.com/golang/protobuf/proto", pk == "log", pk == "internal/race",
		pk == "internal/godebug", pk == "github.com/golang/glog":
		return resultZero(fn)
	case pk == "runtime" || pk == "runtime/debug":
		return resultZero(fn)
	}
	return nil
}

func str(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(&pathEnd{Unsupported, fmt.Sprintf("concrete string expected, have %T", v)})
	}
	return s
}

func (fr *frame) i64(v value) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *term.Term:
		return sx(fr.p.concretize(v, "integer argument"), v.W)
	}
	panic("i64")
}

func tup(vs ...value) tuple { return tuple(vs) }

var nilErr = iface{}

func (p *path) side_(name string) map[interface{}]value {
	m := p.side[name]
	if m == nil {
		m = map[interface{}]value{}
		p.side[name] = m
	}
	return m
}

// call a value as a function from an intrinsic.
func (fr *frame) call(f value, args ...value) value { return callFn(fr, fr.th, f, args, nil) }

// callMethod invokes method name on an interface value.
func (fr *frame) callMethod(i iface, name string, args ...value) (value, bool) {
	ms := fr.p.e.Prog.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		s := ms.At(k)
		if s.Obj().Name() == name {
			f := fr.p.e.Prog.MethodValue(s)
			if f == nil {
				return nil, false
			}
			return callCode(fr, fr.th, fr.p.e.codeFor(f), append([]value{copyVal(i.v)}, args...), nil), true
		}
	}
	return nil, false
}

func (e *Engine) hasMethod(t types.Type, name string) bool {
	ms := e.Prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return true
		}
	}
	return false
}

func fieldIndex(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

// ---- integers as decimal text

const tokInt = 0xF5

func (p *path) formatInt(x *term.Term) value {
	b := []value{uint64(tokInt)}
	for i := 7; i >= 0; i-- {
		b = append(b, V(p.tab.Extract(x, uint8(8*i), 8)))
	}
	return mkStr(b)
}

// parseTok recognises text made by formatInt.
func (p *path) parseTok(b []value) (*term.Term, bool) {
	if len(b) != 9 {
		return nil, false
	}
	if m, ok := b[0].(uint64); !ok || m != tokInt {
		return nil, false
	}
	x := p.T(b[1], 8)
	for i := 2; i < 9; i++ {
		x = p.tab.Concat(x, p.T(b[i], 8))
	}
	return x, true
}

func numErr(fr *frame, fn, s string, err error) value {
	return fr.p.mkError("strconv." + fn + ": parsing " + strconv.Quote(s) + ": " + err.Error())
}

// parseInt over possibly symbolic decimal text.
func (fr *frame) parseInt(s value, base, bitSize int64, fname string) value {
	p := fr.p
	if bitSize == 0 {
		bitSize = 64
	}
	if cs, ok := s.(string); ok {
		v, err := strconv.ParseInt(cs, int(base), int(bitSize))
		if err != nil {
			return tup(uint64(v), numErr(fr, fname, cs, errors.Unwrap(err)))
		}
		return tup(uint64(v), nilErr)
	}
	b := s.(*symstr).b
	if x, ok := p.parseTok(b); ok {
		if bitSize < 64 {
			lo, hi := p.tab.Const(64, ^uint64(0)<<(bitSize-1)), p.tab.Const(64, 1<<(bitSize-1)-1)
			if !p.branch(V(p.tab.And(p.tab.Sle(lo, x), p.tab.Sle(x, hi)))) {
				return tup(uint64(0), numErr(fr, fname, "?", strconv.ErrRange))
			}
		}
		return tup(V(x), nilErr)
	}
	if base != 10 && base != 0 || len(b) > 18 {
		p.unsupported("ParseInt of symbolic text (base %d, %d bytes)", base, len(b))
	}
	if base == 0 {
		p.unsupported("ParseInt base 0 of symbolic text")
	}
	// sign
	tb := p.tab
	neg := false
	d := b
	if len(d) > 0 {
		c := p.T(d[0], 8)
		if p.branch(V(tb.Eq(c, tb.Const(8, '-')))) {
			neg = true
			d = d[1:]
		} else if p.branch(V(tb.Eq(c, tb.Const(8, '+')))) {
			d = d[1:]
		}
	}
	ok := tb.Bool(len(d) > 0)
	acc := tb.Const(64, 0)
	for _, x := range d {
		c := p.T(x, 8)
		ok = tb.And(ok, tb.And(tb.Ule(tb.Const(8, '0'), c), tb.Ule(c, tb.Const(8, '9'))))
		acc = tb.Add(tb.Mul(acc, tb.Const(64, 10)), tb.ZExt(tb.Sub(c, tb.Const(8, '0')), 64))
	}
	if !p.branch(V(ok)) {
		return tup(uint64(0), fr.p.mkError("strconv."+fname+": invalid syntax"))
	}
	if neg {
		acc = tb.Neg(acc)
	}
	if bitSize < 64 {
		lo, hi := tb.Const(64, ^uint64(0)<<(bitSize-1)), tb.Const(64, 1<<(bitSize-1)-1)
		if !p.branch(V(tb.And(tb.Sle(lo, acc), tb.Sle(acc, hi)))) {
			return tup(uint64(0), numErr(fr, fname, "?", strconv.ErrRange))
		}
	}
	return tup(V(acc), nilErr)
}

// ---- formatting

func (fr *frame) fmtArg(v value) interface{} {
	i, ok := v.(iface)
	if !ok {
		return show(v, 0)
	}
	if i.t == nil {
		return nil
	}
	if fr.p.e.hasMethod(i.t, "Error") {
		if isNilPtr(i.v) {
			return "<nil>"
		}
		r, ok := fr.callMethod(i, "Error")
		if ok {
			if s, ok := r.(string); ok {
				return errText(s)
			}
			return errText("<symbolic text>")
		}
	}
	if fr.p.e.hasMethod(i.t, "String") && !isNilPtr(i.v) {
		if r, ok := fr.callMethod(i, "String"); ok {
			if s, ok := r.(string); ok {
				return s
			}
			return "<symbolic text>"
		}
	}
	if b, ok := under(i.t).(*types.Basic); ok {
		switch x := i.v.(type) {
		case uint64:
			k, _ := intKind(i.t)
			switch {
			case k.float && k.w == 64:
				return math.Float64frombits(x)
			case k.float:
				return math.Float32frombits(uint32(x))
			case k.signed:
				return sx(x, k.w)
			case k.w == 8:
				return uint8(x)
			}
			return x
		case bool:
			return x
		case string:
			return x
		case *term.Term:
			return symText("<symbolic " + b.Name() + ">")
		case *symstr:
			return symText("<symbolic string>")
		}
	}
	if s, ok := i.v.([]value); ok {
		if bs, ok := concreteBytes2(s); ok {
			return bs
		}
	}
	return symText(show(i.v, 0))
}

func concreteBytes2(s []value) ([]byte, bool) {
	for _, x := range s {
		if u, ok := x.(uint64); !ok || u > 255 {
			return nil, false
		}
	}
	return concreteBytes(s)
}

type symText string

func (s symText) Format(f fmt.State, c rune) { f.Write([]byte(s)) }

type errText string

func (e errText) Error() string { return string(e) }

func (fr *frame) fmtArgs(v value) []interface{} {
	var o []interface{}
	for _, x := range v.([]value) {
		o = append(o, fr.fmtArg(x))
	}
	return o
}

func (fr *frame) sprintf(format value, args value) string {
	f, ok := format.(string)
	if !ok {
		return "<symbolic format>"
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), fr.fmtArgs(args)...)
}

func (fr *frame) errorf(args []value) value {
	f, _ := args[0].(string)
	msg := fr.sprintf(args[0], args[1])
	if strings.Contains(f, "%w") {
		for _, x := range args[1].([]value) {
			if i, ok := x.(iface); ok && i.t != nil && fr.p.e.hasMethod(i.t, "Error") {
				t := fr.p.e.lookupType("fmt", "wrapError")
				c := new(value)
				*c = structure{msg, i}
				return iface{fr.p.e.ptrTo(t), c}
			}
		}
	}
	return fr.p.mkError(msg)
}

// errorsIs follows Unwrap chains.
func (fr *frame) errorsIs(err, target iface) value {
	p := fr.p
	for n := 0; n < 50; n++ {
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		if identical(err.t, target.t) && types.Comparable(err.t) {
			if p.branch(p.equals(err.t, err.v, target.v)) {
				return true
			}
		}
		if p.e.hasMethod(err.t, "Is") {
			r, ok := fr.callMethod(err, "Is", target)
			if ok && p.branch(r) {
				return true
			}
		}
		if !p.e.hasMethod(err.t, "Unwrap") {
			return false
		}
		r, _ := fr.callMethod(err, "Unwrap")
		switch r := r.(type) {
		case iface:
			err = r
		case []value:
			for _, e := range r {
				if p.branch(fr.errorsIs(e.(iface), target)) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (fr *frame) errorsAs(err iface, t types.Type, dst *value) bool {
	for n := 0; n < 50 && err.t != nil; n++ {
		if it, ok := t.Underlying().(*types.Interface); ok {
			if fr.p.e.implements(err.t, it) {
				storeInto(dst, err)
				return true
			}
		} else if identical(err.t, t) {
			storeInto(dst, err.v)
			return true
		}
		if fr.p.e.hasMethod(err.t, "As") {
			fr.p.unsupported("errors.As on an error with a method As")
		}
		if !fr.p.e.hasMethod(err.t, "Unwrap") {
			return false
		}
		r, _ := fr.callMethod(err, "Unwrap")
		switch r := r.(type) {
		case iface:
			err = r
		case []value:
			for _, e := range r {
				if fr.errorsAs(e.(iface), t, dst) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// decodeRune decodes the first rune of b, splitting over the classes of its bytes.
func (p *path) decodeRune(b []value) (r value, n int) {
	tb := p.tab
	in := func(k int, lo, hi uint64) bool {
		if k >= len(b) {
			return false
		}
		t := p.T(b[k], 8)
		return p.branch(V(tb.And(tb.Ule(tb.Const(8, lo), t), tb.Ule(t, tb.Const(8, hi)))))
	}
	bad := uint64(utf8.RuneError)
	join := func(n int, mask uint64) value {
		r := tb.BAnd(tb.ZExt(p.T(b[0], 8), 32), tb.Const(32, mask))
		for k := 1; k < n; k++ {
			c := tb.BAnd(tb.ZExt(p.T(b[k], 8), 32), tb.Const(32, 0x3f))
			r = tb.BOr(tb.Shl(r, tb.Const(32, 6)), c)
		}
		return V(r)
	}
	switch {
	case in(0, 0, 0x7f):
		return V(tb.ZExt(p.T(b[0], 8), 32)), 1
	case in(0, 0xc2, 0xdf):
		if in(1, 0x80, 0xbf) {
			return join(2, 0x1f), 2
		}
	case in(0, 0xe0, 0xef):
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(0, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(0, 0xed, 0xed) {
			hi = 0x9f
		}
		if in(1, lo, hi) && in(2, 0x80, 0xbf) {
			return join(3, 0x0f), 3
		}
	case in(0, 0xf0, 0xf4):
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(0, 0xf0, 0xf0) {
			lo = 0x90
		} else if in(0, 0xf4, 0xf4) {
			hi = 0x8f
		}
		if in(1, lo, hi) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) {
			return join(4, 0x07), 4
		}
	}
	return bad, 1
}

// ---- bit tricks

func (p *path) len64(x *term.Term, w uint8) *term.Term {
	tb := p.tab
	r := tb.Const(64, 0)
	for i := uint8(0); i < w; i++ {
		r = tb.Ite(tb.Eq(tb.Extract(x, i, 1), tb.Const(1, 1)), tb.Const(64, uint64(i)+1), r)
	}
	return r
}

func (p *path) ctz(x *term.Term, w uint8) *term.Term {
	tb := p.tab
	r := tb.Const(64, uint64(w))
	for i := int(w) - 1; i >= 0; i-- {
		r = tb.Ite(tb.Eq(tb.Extract(x, uint8(i), 1), tb.Const(1, 1)), tb.Const(64, uint64(i)), r)
	}
	return r
}

func (p *path) cmp3(lt, eq value) value {
	if l, ok := lt.(bool); ok {
		if l {
			return ^uint64(0)
		}
		if e, ok := eq.(bool); ok {
			if e {
				return uint64(0)
			}
			return uint64(1)
		}
	}
	tb := p.tab
	return V(tb.Ite(p.T(lt, 0), tb.Const(64, ^uint64(0)), tb.Ite(p.T(eq, 0), tb.Const(64, 0), tb.Const(64, 1))))
}

// indexByte finds the first c in b: forks on where.
func (fr *frame) indexByte(b []value, c value) value {
	p := fr.p
	for i, x := range b {
		if p.branch(V(p.tab.Eq(p.T(x, 8), p.T(c, 8)))) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func mathFn1(f func(float64) float64) intrinsic {
	return func(fr *frame, a []value) value {
		x, ok := a[0].(uint64)
		if !ok {
			fr.p.unsupported("symbolic math function")
		}
		return math.Float64bits(f(math.Float64frombits(x)))
	}
}

// cellOf is the storage an atomic/sync method works on.
func (fr *frame) cell(v value) *value {
	c, ok := v.(*value)
	if !ok {
		fr.p.unsupported("atomic on %T", v)
	}
	if c == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c
}

// scalarCell finds the value field of atomic.Int64 and friends.
func (fr *frame) scalarCell(v value) *value {
	c := fr.cell(v)
	if s, ok := (*c).(structure); ok {
		return &s[len(s)-1]
	}
	return c
}

func atomicOps(w uint8, t types.Type) map[string]intrinsic {
	return map[string]intrinsic{
		"Load": func(fr *frame, a []value) value {
			fr.yield("atomic")
			fr.hb(fr.scalarCell(a[0]))
			return *fr.scalarCell(a[0])
		},
		"Store": func(fr *frame, a []value) value {
			fr.yield("atomic")
			fr.hb(fr.scalarCell(a[0]))
			*fr.scalarCell(a[0]) = a[1]
			return nil
		},
		"Add": func(fr *frame, a []value) value {
			fr.yield("atomic")
			fr.hb(fr.scalarCell(a[0]))
			c := fr.scalarCell(a[0])
			*c = fr.binop(token.ADD, t, t, *c, a[1])
			return *c
		},
		"Swap": func(fr *frame, a []value) value {
			fr.yield("atomic")
			fr.hb(fr.scalarCell(a[0]))
			c := fr.scalarCell(a[0])
			o := *c
			*c = a[1]
			return o
		},
		"CompareAndSwap": func(fr *frame, a []value) value {
			fr.yield("atomic")
			fr.hb(fr.scalarCell(a[0]))
			c := fr.scalarCell(a[0])
			if fr.p.branch(fr.p.equals(t, *c, a[1])) {
				*c = a[2]
				return true
			}
			return false
		},
	}
}

const unixBase = 1767225600
const unixToInternal = 62135596800

func (p *path) timeNow() value {
	sec := p.now / 1e9
	ns := p.now % 1e9
	return structure{uint64(ns), uint64(unixBase + unixToInternal + sec), (*value)(nil)}
}

func (p *path) newTimerObj(tn string, d int64, period int64, f func()) value {
	t := p.e.lookupType("time", tn)
	s := zero(t).(structure)
	ch := &channel{cap: 1}
	s[fieldIndex(t, "C")] = ch
	c := new(value)
	*c = s
	st := &timerState{}
	p.side_("timer")[c] = st
	var arm func(d int64)
	arm = func(d int64) {
		st.t = p.addTimer(d, func() {
			st.t = nil
			if f != nil {
				f()
				return
			}
			if len(ch.buf) < 1 || len(ch.recvq) > 0 {
				if !ch.popRecv(p.timeNow(), true) {
					if len(ch.buf) < 1 {
						ch.buf = append(ch.buf, p.timeNow())
					}
				}
			}
			if period > 0 {
				arm(period)
			}
		})
	}
	st.arm = arm
	arm(d)
	return c
}

type timerState struct {
	t   *timer
	arm func(int64)
}

func (p *path) stopTimer(c value) value {
	st, ok := p.side_("timer")[c].(*timerState)
	if !ok || st.t == nil {
		return false
	}
	st.t.dead = true
	st.t = nil
	return true
}

func (fr *frame) syncMap(v value) *mapv {
	c := fr.cell(v)
	if m, ok := fr.p.syncSt[c]; ok {
		return m.(*mapv)
	}
	m := newMap(types.NewInterfaceType(nil, nil))
	fr.p.syncSt[c] = m
	return m
}

func init() {
	m := map[string]intrinsic{}
	intrinsics = m
	reg := func(name string, f intrinsic) { m[name] = f }

	// ---- harness API
	s := symPkg + "."
	reg(s+"Bool", func(fr *frame, a []value) value { return fr.p.newVar(str(a[0]), 0) })
	for n, w := range map[string]uint8{"Byte": 8, "Uint32": 32, "Uint64": 64, "Int64": 64, "Int32": 32, "Int": 64, "Float64": 64, "Uint16": 16} {
		w := w
		reg(s+n, func(fr *frame, a []value) value { return fr.p.newVar(str(a[0]), w) })
	}
	reg(s+"Bytes", func(fr *frame, a []value) value {
		n := int(fr.i64(a[1]))
		b := make([]value, n)
		for i := range b {
			b[i] = fr.p.newVar(str(a[0]), 8)
		}
		return b
	})
	reg(s+"Choice", func(fr *frame, a []value) value { return uint64(fr.p.choose(int(fr.i64(a[1])), str(a[0]))) })
	reg(s+"Assume", func(fr *frame, a []value) value { fr.p.assume(a[0]); return nil })
	reg(s+"Assert", func(fr *frame, a []value) value { fr.p.assert(a[0], str(a[1])); return nil })
	reg(s+"Cover", func(fr *frame, a []value) value { fr.p.covers[str(a[0])] = true; return nil })
	reg(s+"Thorough", func(fr *frame, a []value) value { return fr.p.e.Cfg.Thorough })
	reg(s+"Symbolic", func(fr *frame, a []value) value { return true })
	reg(s+"And", func(fr *frame, a []value) value {
		var r value = true
		for _, x := range a[0].([]value) {
			r = fr.p.and(r, x)
		}
		return r
	})
	reg(s+"Or", func(fr *frame, a []value) value {
		var r value = false
		for _, x := range a[0].([]value) {
			r = fr.p.or(r, x)
		}
		return r
	})
	reg(s+"Not", func(fr *frame, a []value) value { return fr.p.not(a[0]) })
	reg(s+"Implies", func(fr *frame, a []value) value { return fr.p.or(fr.p.not(a[0]), a[1]) })
	reg(s+"Iff", func(fr *frame, a []value) value {
		return V(fr.p.tab.Eq(fr.p.T(a[0], 0), fr.p.T(a[1], 0)))
	})
	reg(s+"IteInt64", func(fr *frame, a []value) value {
		return V(fr.p.tab.Ite(fr.p.T(a[0], 0), fr.p.T(a[1], 64), fr.p.T(a[2], 64)))
	})
	reg(s+"LessBytes", func(fr *frame, a []value) value { return fr.p.bytesLess(a[0].([]value), a[1].([]value), false) })
	reg(s+"FixInt", func(fr *frame, a []value) value { return uint64(fr.i64(a[0])) })
	reg(s+"FixBool", func(fr *frame, a []value) value { return fr.p.branch(a[0]) })
	reg(s+"Interleave", func(fr *frame, a []value) value {
		fr.p.maxPre = int(fr.i64(a[0]))
		fr.p.interleave = fr.p.maxPre > 0
		fr.p.order = []int{fr.th.id}
		if fr.p.interleave && fr.p.e.Cfg.Races && fr.p.races == nil {
			fr.p.startRaces()
		}
		return nil
	})
	reg(s+"Round", func(fr *frame, a []value) value { return nil })
	reg(s+"Tries", func(fr *frame, a []value) value { return uint64(1) })
	reg(s+"Yield", func(fr *frame, a []value) value {
		fr.yield(str(a[0]))
		if fr.p.interleave && len(fr.p.order) < 2000 {
			fr.p.order = append(fr.p.order, fr.th.id)
		}
		return nil
	})
	reg(s+"Trace", func(fr *frame, a []value) value {
		fr.p.trace = append(fr.p.trace, fr.sprintf(a[0], a[1]))
		return nil
	})
	reg(s+"Stop", func(fr *frame, a []value) value { fr.p.finish(nil); panic(killed{}) })
	reg(s+"Unsupported", func(fr *frame, a []value) value { fr.p.unsupported("%s", str(a[0])); return nil })

	// ---- bytes and strings
	bs := func(v value) []value {
		switch x := v.(type) {
		case []value:
			return x
		}
		return strBytes(v)
	}
	eq := func(fr *frame, a []value) value {
		x, y := bs(a[0]), bs(a[1])
		return fr.p.bytesEq(x, y)
	}
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	cmp := func(fr *frame, a []value) value {
		x, y := bs(a[0]), bs(a[1])
		return fr.p.cmp3(fr.p.bytesLess(x, y, false), fr.p.bytesEq(x, y))
	}
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	ib := func(fr *frame, a []value) value { return fr.indexByte(bs(a[0]), a[1]) }
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		reg(n, ib)
	}
	index := func(fr *frame, x, y []value) int {
		for i := 0; i+len(y) <= len(x); i++ {
			if fr.p.branch(fr.p.bytesEq(x[i:i+len(y)], y)) {
				return i
			}
		}
		return -1
	}
	idx := func(fr *frame, a []value) value { return uint64(int64(index(fr, bs(a[0]), bs(a[1])))) }
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, idx)
	}
	reg("strings.Contains", func(fr *frame, a []value) value { return index(fr, bs(a[0]), bs(a[1])) >= 0 })
	count := func(fr *frame, a []value) value {
		n := uint64(0)
		for _, c := range bs(a[0]) {
			if fr.p.branch(fr.p.bytesEq([]value{c}, []value{a[1]})) {
				n++
			}
		}
		return n
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	low := func(f func(string) string, lo, hi byte) intrinsic {
		return func(fr *frame, a []value) value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			tb := fr.p.tab
			o := []value{}
			for _, c := range bs(a[0]) {
				t := fr.p.T(c, 8)
				if !fr.p.branch(V(tb.Ult(t, tb.Const(8, 0x80)))) || lo == 0 {
					fr.p.unsupported("text mapping over symbolic text")
				}
				in := tb.And(tb.Ule(tb.Const(8, uint64(lo)), t), tb.Ule(t, tb.Const(8, uint64(hi))))
				o = append(o, V(tb.Ite(in, tb.BXor(t, tb.Const(8, 0x20)), t)))
			}
			return mkStr(o)
		}
	}
	reg("strings.ToLower", low(strings.ToLower, 'A', 'Z'))
	reg("strings.ToUpper", low(strings.ToUpper, 'a', 'z'))
	reg("strings.TrimSpace", low(strings.TrimSpace, 0, 0))
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		s := make([]value, fr.i64(a[0]))
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*strings.Builder).String", func(fr *frame, a []value) value {
		st := (*fr.cell(a[0])).(structure)
		return mkStr(st[len(st)-1].([]value))
	})
	reg("internal/abi.NoEscape", func(fr *frame, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(fr *frame, a []value) value { return a[0] })

	// ---- math
	id := func(fr *frame, a []value) value { return a[0] }
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		reg("math."+n, id)
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Round": math.Round} {
		reg("math."+n, mathFn1(f))
	}
	reg("math.Abs", func(fr *frame, a []value) value {
		return V(fr.p.tab.BAnd(fr.p.T(a[0], 64), fr.p.tab.Const(64, 1<<63-1)))
	})
	reg("math.IsNaN", func(fr *frame, a []value) value { return V(fr.p.fNaN(fr.p.T(a[0], 64))) })
	reg("math.Pow", func(fr *frame, a []value) value {
		return math.Float64bits(math.Pow(math.Float64frombits(a[0].(uint64)), math.Float64frombits(a[1].(uint64))))
	})
	for n, w := range map[string]uint8{"Len": 64, "Len64": 64, "Len32": 32, "Len16": 16, "Len8": 8} {
		w := w
		reg("math/bits."+n, func(fr *frame, a []value) value {
			if c, ok := a[0].(uint64); ok {
				return uint64(bits.Len64(c))
			}
			return V(fr.p.len64(a[0].(*term.Term), w))
		})
	}
	for n, w := range map[string]uint8{"LeadingZeros": 64, "LeadingZeros64": 64, "LeadingZeros32": 32} {
		w := w
		reg("math/bits."+n, func(fr *frame, a []value) value {
			return V(fr.p.tab.Sub(fr.p.tab.Const(64, uint64(w)), fr.p.len64(fr.p.T(a[0], w), w)))
		})
	}
	for n, w := range map[string]uint8{"TrailingZeros": 64, "TrailingZeros64": 64, "TrailingZeros32": 32} {
		w := w
		reg("math/bits."+n, func(fr *frame, a []value) value { return V(fr.p.ctz(fr.p.T(a[0], w), w)) })
	}

	// ---- strconv
	formatUint := func(fr *frame, v, base value) value {
		t := v.(*term.Term)
		if fr.i64(base) != 10 || !fr.p.branch(V(fr.p.tab.Sle(fr.p.tab.Const(64, 0), t))) {
			fr.p.unsupported("FormatUint of a symbolic number")
		}
		return fr.p.formatInt(t)
	}
	reg("strconv.FormatInt", func(fr *frame, a []value) value {
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(c), int(fr.i64(a[1])))
		}
		if b := fr.i64(a[1]); b != 10 {
			fr.p.unsupported("FormatInt of a symbolic number in base %d", b)
		}
		return fr.p.formatInt(a[0].(*term.Term))
	})
	reg("strconv.Itoa", func(fr *frame, a []value) value {
		if c, ok := a[0].(uint64); ok {
			return strconv.Itoa(int(c))
		}
		return fr.p.formatInt(a[0].(*term.Term))
	})
	reg("strconv.AppendInt", func(fr *frame, a []value) value {
		var s value
		if c, ok := a[1].(uint64); ok {
			s = strconv.FormatInt(int64(c), int(fr.i64(a[2])))
		} else {
			if b := fr.i64(a[2]); b != 10 {
				fr.p.unsupported("AppendInt of a symbolic number in base %d", b)
			}
			s = fr.p.formatInt(a[1].(*term.Term))
		}
		return fr.p.appendVals(a[0].([]value), strBytes(s), types.Typ[types.Uint8])
	})
	reg("strconv.FormatUint", func(fr *frame, a []value) value {
		if c, ok := a[0].(uint64); ok {
			return strconv.FormatUint(c, int(fr.i64(a[1])))
		}
		return formatUint(fr, a[0], a[1])
	})
	reg("strconv.AppendUint", func(fr *frame, a []value) value {
		var s value
		if c, ok := a[1].(uint64); ok {
			s = strconv.FormatUint(c, int(fr.i64(a[2])))
		} else {
			s = formatUint(fr, a[1], a[2])
		}
		return fr.p.appendVals(a[0].([]value), strBytes(s), types.Typ[types.Uint8])
	})
	reg("strconv.ParseInt", func(fr *frame, a []value) value {
		return fr.parseInt(a[0], fr.i64(a[1]), fr.i64(a[2]), "ParseInt")
	})
	reg("strconv.Atoi", func(fr *frame, a []value) value { return fr.parseInt(a[0], 10, 64, "Atoi") })
	reg("strconv.ParseUint", func(fr *frame, a []value) value {
		cs, ok := a[0].(string)
		if !ok {
			b, base, bits := a[0].(*symstr).b, fr.i64(a[1]), fr.i64(a[2])
			if bits != 0 && bits != 64 {
				fr.p.unsupported("ParseUint of symbolic text (%d bits)", bits)
			}
			tb := fr.p.tab
			if x, ok := fr.p.parseTok(b); ok {
				if !fr.p.branch(V(tb.Sle(tb.Const(64, 0), x))) {
					return tup(uint64(0), numErr(fr, "ParseUint", "?", strconv.ErrSyntax))
				}
			} else if c := fr.p.T(b[0], 8); fr.p.branch(V(tb.Or(tb.Eq(c, tb.Const(8, '-')), tb.Eq(c, tb.Const(8, '+'))))) {
				return tup(uint64(0), numErr(fr, "ParseUint", "?", strconv.ErrSyntax))
			}
			return fr.parseInt(a[0], base, 64, "ParseUint")
		}
		v, err := strconv.ParseUint(cs, int(fr.i64(a[1])), int(fr.i64(a[2])))
		if err != nil {
			return tup(v, numErr(fr, "ParseUint", cs, errors.Unwrap(err)))
		}
		return tup(v, nilErr)
	})
	reg("strconv.Quote", func(fr *frame, a []value) value { return strconv.Quote(str(a[0])) })

	// ---- fmt, errors
	reg("fmt.Sprintf", func(fr *frame, a []value) value { return fr.sprintfData(a[0], a[1]) })
	reg("fmt.Errorf", func(fr *frame, a []value) value { return fr.errorf(a) })
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.sprintData(a[0], false) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.sprintData(a[0], true) })
	reg("fmt.Fprintf", func(fr *frame, a []value) value {
		return fr.fprint(a[0], func() value { return fr.sprintfData(a[1], a[2]) })
	})
	reg("fmt.Fprint", func(fr *frame, a []value) value {
		return fr.fprint(a[0], func() value { return fr.sprintData(a[1], false) })
	})
	reg("fmt.Fprintln", func(fr *frame, a []value) value {
		return fr.fprint(a[0], func() value { return fr.sprintData(a[1], true) })
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(fr *frame, a []value) value { return tup(uint64(0), nilErr) })
	}
	// the global random source is some fixed sequence
	rnd := func(p *path) uint64 {
		m := p.side_("math/rand")
		n, _ := m["n"].(uint64)
		n++
		m["n"] = n
		return n*6364136223846793005>>33 + n
	}
	for _, n := range []string{"Int", "Int63", "Int31", "Uint32", "Uint64"} {
		w := map[string]uint{"Int31": 1, "Uint32": 1}[n]
		reg("math/rand."+n, func(fr *frame, a []value) value { return rnd(fr.p) >> w })
	}
	for _, n := range []string{"Intn", "Int63n", "Int31n"} {
		reg("math/rand."+n, func(fr *frame, a []value) value {
			k, ok := a[0].(uint64)
			if !ok {
				k = fr.p.concretize(a[0].(*term.Term), "random bound")
			}
			if int64(k) <= 0 {
				panic(&targetPanic{v: fr.p.mkError("invalid argument to " + n), tr: fr.where()})
			}
			return rnd(fr.p) % k
		})
	}
	reg("math/rand.Float64", func(fr *frame, a []value) value {
		return math.Float64bits(float64(rnd(fr.p)%1000) / 1000)
	})
	reg("math/rand.Perm", func(fr *frame, a []value) value {
		var o []value
		for i := int64(0); i < fr.i64(a[0]); i++ {
			o = append(o, uint64(i))
		}
		return o
	})
	reg("math/rand.Shuffle", func(fr *frame, a []value) value { return nil })
	reg("math/rand.Seed", func(fr *frame, a []value) value { return nil })
	reg("(runtime.errorString).Error", func(fr *frame, a []value) value { return "runtime error: " + a[0].(string) })
	reg("context.WithValue", func(fr *frame, a []value) value {
		t := fr.p.e.lookupType("context", "valueCtx")
		c := new(value)
		*c = structure{a[0], a[1], a[2]}
		return iface{fr.p.e.ptrTo(t), c}
	})
	reg("errors.Is", func(fr *frame, a []value) value { return fr.errorsIs(a[0].(iface), a[1].(iface)) })
	reg("errors.As", func(fr *frame, a []value) value {
		target := a[1].(iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			fr.p.unsupported("errors.As with a target that is no pointer")
		}
		return fr.errorsAs(a[0].(iface), pt.Elem(), fr.cell(target.v))
	})
	reg("errors.Unwrap", func(fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil || !fr.p.e.hasMethod(i.t, "Unwrap") {
			return iface{}
		}
		r, _ := fr.callMethod(i, "Unwrap")
		if e, ok := r.(iface); ok {
			return e
		}
		return iface{}
	})

	// ---- sync
	reg("(*sync.Mutex).Lock", func(fr *frame, a []value) value { fr.lock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(fr *frame, a []value) value { fr.unlock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.Mutex).TryLock", func(fr *frame, a []value) value {
		mu := fr.p.mutex(a[0])
		if mu.w || mu.r > 0 {
			return false
		}
		fr.lock(mu)
		return true
	})
	reg("(*sync.RWMutex).Lock", func(fr *frame, a []value) value { fr.lock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(fr *frame, a []value) value { fr.unlock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []value) value { fr.rlock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []value) value { fr.runlock(fr.p.mutex(a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", m["(*sync.Mutex).TryLock"])
	reg("(*sync.RWMutex).TryRLock", func(fr *frame, a []value) value {
		mu := fr.p.mutex(a[0])
		if mu.w || mu.waiting > 0 {
			return false
		}
		fr.rlock(mu)
		return true
	})
	reg("(*sync.Once).Do", func(fr *frame, a []value) value {
		fr.yield("once")
		c := fr.cell(a[0])
		st, ok := fr.p.syncSt[c].(*onceState)
		if !ok {
			st = &onceState{}
			fr.p.syncSt[c] = st
		}
		if st.done {
			fr.acquire(st)
			return nil
		}
		if st.running {
			fr.block("Once.Do", func() bool { return st.done })
			fr.acquire(st)
			return nil
		}
		st.running = true
		defer func() { st.done = true; fr.release(st) }()
		fr.call(a[1])
		return nil
	})
	wg := func(fr *frame, v value) *wgState {
		c := fr.cell(v)
		st, ok := fr.p.syncSt[c].(*wgState)
		if !ok {
			st = &wgState{}
			fr.p.syncSt[c] = st
		}
		return st
	}
	wgAdd := func(fr *frame, st *wgState, d int64) {
		st.n += d
		fr.release(st)
		if st.n < 0 {
			panic(&targetPanic{v: fr.p.runtimeError("sync: negative WaitGroup counter"), tr: fr.where()})
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []value) value { wgAdd(fr, wg(fr, a[0]), fr.i64(a[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []value) value { wgAdd(fr, wg(fr, a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []value) value {
		st := wg(fr, a[0])
		fr.block("WaitGroup.Wait", func() bool { return st.n == 0 })
		fr.acquire(st)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, a []value) value {
		st := wg(fr, a[0])
		wgAdd(fr, st, 1)
		f := a[1]
		fr.p.spawn(fr, &nativeFn{"wg.Go", func(fr2 *frame, _ []value) value {
			defer func() { st.n--; fr2.release(st) }()
			return fr2.call(f)
		}}, nil)
		return nil
	})
	type condState struct{ waiters []*bool }
	cond := func(fr *frame, v value) *condState {
		c := fr.cell(v)
		st, ok := fr.p.syncSt[c].(*condState)
		if !ok {
			st = &condState{}
			fr.p.syncSt[c] = st
		}
		return st
	}
	reg("(*sync.Cond).Wait", func(fr *frame, a []value) value {
		st := cond(fr, a[0])
		t := fr.p.e.lookupType("sync", "Cond")
		l := (*fr.cell(a[0])).(structure)[fieldIndex(t, "L")].(iface)
		woken := new(bool)
		st.waiters = append(st.waiters, woken)
		fr.callMethod(l, "Unlock")
		fr.block("Cond.Wait", func() bool { return *woken })
		fr.callMethod(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, a []value) value {
		st := cond(fr, a[0])
		if len(st.waiters) > 0 {
			*st.waiters[0] = true
			st.waiters = st.waiters[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *frame, a []value) value {
		st := cond(fr, a[0])
		for _, w := range st.waiters {
			*w = true
		}
		st.waiters = nil
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		t := fr.p.e.lookupType("sync", "Pool")
		n := (*fr.cell(a[0])).(structure)[fieldIndex(t, "New")]
		if isNilFunc(n) {
			return iface{}
		}
		return fr.call(n)
	})
	reg("(*sync.Pool).Put", nop)
	reg("(*sync.Map).Load", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		if i := fr.p.mapFind(mp, a[1]); i >= 0 {
			return tup(mp.vals[i], true)
		}
		return tup(iface{}, false)
	})
	reg("(*sync.Map).Store", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		fr.hb(fr.syncMap(a[0]))
		fr.p.mapSet(fr.syncMap(a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		if i := fr.p.mapFind(mp, a[1]); i >= 0 {
			return tup(mp.vals[i], true)
		}
		fr.p.mapSet(mp, a[1], a[2])
		return tup(a[2], false)
	})
	reg("(*sync.Map).Swap", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		if i := fr.p.mapFind(mp, a[1]); i >= 0 {
			o := mp.vals[i]
			mp.vals[i] = a[2]
			return tup(o, true)
		}
		fr.p.mapSet(mp, a[1], a[2])
		return tup(iface{}, false)
	})
	del := func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		if i := fr.p.mapFind(mp, a[1]); i >= 0 {
			o := mp.vals[i]
			fr.p.mapDelete(mp, a[1])
			return tup(o, true)
		}
		return tup(iface{}, false)
	}
	reg("(*sync.Map).LoadAndDelete", del)
	reg("(*sync.Map).Delete", func(fr *frame, a []value) value { del(fr, a); return nil })
	reg("(*sync.Map).CompareAndSwap", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		i := fr.p.mapFind(mp, a[1])
		if i >= 0 && fr.p.branch(fr.p.ifaceEq(mp.vals[i].(iface), a[2].(iface))) {
			mp.vals[i] = a[3]
			return true
		}
		return false
	})
	reg("(*sync.Map).CompareAndDelete", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		i := fr.p.mapFind(mp, a[1])
		if i >= 0 && fr.p.branch(fr.p.ifaceEq(mp.vals[i].(iface), a[2].(iface))) {
			fr.p.mapDelete(mp, a[1])
			return true
		}
		return false
	})
	reg("(*sync.Map).Clear", func(fr *frame, a []value) value {
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		for _, i := range mp.liveIdx() {
			fr.p.mapDelete(mp, mp.keys[i])
		}
		return nil
	})
	reg("(*sync.Map).Range", func(fr *frame, a []value) value {
		fr.yield("syncmap")
		mp := fr.syncMap(a[0])
		fr.hb(mp)
		for _, i := range mp.liveIdx() {
			if !mp.live[i] {
				continue
			}
			if !fr.p.branch(fr.call(a[1], mp.keys[i], mp.vals[i])) {
				break
			}
		}
		return nil
	})
	for suffix, t := range map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr]} {
		k, _ := intKind(t)
		for n, f := range atomicOps(k.w, t) {
			reg("sync/atomic."+n+suffix, f)
			reg("(*sync/atomic."+suffix+")."+n, f)
		}
	}
	for n, f := range atomicOps(0, types.Typ[types.Bool]) {
		if n != "Add" {
			reg("(*sync/atomic.Bool)."+n, f)
		}
	}
	pt := types.NewPointer(types.Typ[types.Int])
	for n, f := range atomicOps(0, pt) {
		if n != "Add" {
			reg("(*sync/atomic.Pointer[T])."+n, f)
			reg("sync/atomic."+n+"Pointer", f)
		}
	}
	av := func(fr *frame, v value) *value { return fr.cell(v) }
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []value) value {
		fr.yield("atomic")
		fr.hb(av(fr, a[0]))
		if x, ok := fr.p.side_("atomicValue")[av(fr, a[0])]; ok {
			return x
		}
		return iface{}
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		fr.yield("atomic")
		fr.hb(av(fr, a[0]))
		n := a[1].(iface)
		if n.t == nil {
			panic(&targetPanic{v: fr.p.runtimeError("sync/atomic: store of nil value into Value"), tr: fr.where()})
		}
		if o, ok := fr.p.side_("atomicValue")[av(fr, a[0])]; ok && !identical(o.(iface).t, n.t) {
			panic(&targetPanic{v: fr.p.runtimeError("sync/atomic: store of inconsistently typed value into Value"), tr: fr.where()})
		}
		fr.p.side_("atomicValue")[av(fr, a[0])] = n
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, a []value) value {
		fr.hb(av(fr, a[0]))
		o, ok := fr.p.side_("atomicValue")[av(fr, a[0])]
		fr.p.side_("atomicValue")[av(fr, a[0])] = a[1]
		if !ok {
			return iface{}
		}
		return o
	})

	// ---- time
	reg("time.Now", func(fr *frame, a []value) value { return fr.p.timeNow() })
	reg("time.runtimeNano", func(fr *frame, a []value) value { return uint64(fr.p.now) })
	reg("time.Since", func(fr *frame, a []value) value {
		st := a[0].(structure)
		s0, ok := st[1].(uint64)
		n0, ok2 := st[0].(uint64)
		if !ok || !ok2 {
			fr.p.unsupported("time.Since of symbolic time")
		}
		then := (int64(s0)-unixBase-unixToInternal)*1e9 + int64(n0&(1<<30-1))
		return uint64(fr.p.now - then)
	})
	reg("time.Sleep", func(fr *frame, a []value) value { fr.sleep(fr.i64(a[0])); return nil })
	reg("time.NewTimer", func(fr *frame, a []value) value { return fr.p.newTimerObj("Timer", fr.i64(a[0]), 0, nil) })
	reg("time.NewTicker", func(fr *frame, a []value) value {
		d := fr.i64(a[0])
		if d <= 0 {
			panic(&targetPanic{v: fr.p.runtimeError("non-positive interval for NewTicker"), tr: fr.where()})
		}
		return fr.p.newTimerObj("Ticker", d, d, nil)
	})
	after := func(fr *frame, a []value) value {
		c := fr.p.newTimerObj("Timer", fr.i64(a[0]), 0, nil)
		t := fr.p.e.lookupType("time", "Timer")
		return (*c.(*value)).(structure)[fieldIndex(t, "C")]
	}
	reg("time.After", after)
	reg("time.Tick", func(fr *frame, a []value) value {
		d := fr.i64(a[0])
		c := fr.p.newTimerObj("Ticker", d, d, nil)
		t := fr.p.e.lookupType("time", "Ticker")
		return (*c.(*value)).(structure)[fieldIndex(t, "C")]
	})
	reg("time.AfterFunc", func(fr *frame, a []value) value {
		p, f := fr.p, a[1]
		return p.newTimerObj("Timer", fr.i64(a[0]), 0, func() { p.spawn(fr, f, nil) })
	})
	stop := func(fr *frame, a []value) value { return fr.p.stopTimer(a[0]) }
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(fr *frame, a []value) value { fr.p.stopTimer(a[0]); return nil })
	reg("(*time.Timer).Reset", func(fr *frame, a []value) value {
		r := fr.p.stopTimer(a[0])
		if st, ok := fr.p.side_("timer")[a[0]].(*timerState); ok {
			st.arm(fr.i64(a[1]))
		}
		return r
	})
	reg("(*time.Ticker).Reset", func(fr *frame, a []value) value {
		fr.p.stopTimer(a[0])
		if st, ok := fr.p.side_("timer")[a[0]].(*timerState); ok {
			st.arm(fr.i64(a[1]))
		}
		return nil
	})
	reg("runtime.Gosched", func(fr *frame, a []value) value { fr.gosched(); return nil })
	reg("runtime/debug.Stack", func(fr *frame, a []value) value { return []value{} })
	reg("runtime.NumCPU", func(fr *frame, a []value) value { return uint64(8) })
	reg("runtime.GOMAXPROCS", func(fr *frame, a []value) value { return uint64(8) })

	// ---- sort
	slc := func(fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !fr.p.branch(fr.call(a[1], uint64(j), uint64(j-1))) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", slc)
	reg("sort.SliceStable", slc)
	reg("sort.Strings", func(fr *frame, a []value) value {
		s := a[0].([]value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && fr.p.branch(fr.p.strLess(s[j], s[j-1], false)); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	})

	reg("os.Getenv", func(fr *frame, a []value) value { return "" })
	reg("os.Getpid", func(fr *frame, a []value) value { return uint64(1) })
	regJSON(reg)
	regReflect(reg)
}

func (p *path) initSpecial(pkg *ssa.Package) {}

func sortedStrings(m map[string]int64) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
