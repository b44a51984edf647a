package hstruct

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// cell is the oracle for one string or counter.
type cell struct {
	set   bool
	isNum bool
	num   int64
	raw   []byte
}

// number reads decimal text independently of the code under test.
func number(b []byte) (n int64, ok bool) {
	neg := false
	if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
		neg = b[0] == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return 0, false
	}
	for i := range b {
		if b[i] < '0' || b[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(b[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func (c cell) asNum() (int64, bool) {
	if c.isNum {
		return c.num, true
	}
	return number(c.raw)
}

// counterOp performs one arbitrary operation, through the string interface, the raw
// key-value helpers, or a hash field.
func counterOp(t *structure.TxStructure, s *session, via int, key []byte, c cell) cell {
	f := []byte("f")
	op := sym.Choice("op", 5)
	switch op {
	case 0:
		v := sym.Bytes("v", sym.Choice("v.len", 3))
		var err error
		switch via {
		case 0:
			err = t.Set(key, v)
		case 1:
			err = s.txn.Set(key, v, nil)
		default:
			err = t.HSet(key, f, v)
		}
		sym.Assert(err == nil, "set succeeds")
		sym.Cover("set")
		return cell{set: true, raw: v}
	case 1:
		v := sym.Int64("n")
		var err error
		switch via {
		case 0:
			err = t.SetInt64(key, v)
		case 1:
			err = kv.SetInt64(s.txn, key, v)
		default:
			err = t.HSetInt64(key, f, v)
		}
		sym.Assert(err == nil, "set succeeds")
		return cell{set: true, isNum: true, num: v}
	case 2:
		step := sym.Int64("step")
		var n int64
		var err error
		switch via {
		case 0:
			n, err = t.Inc(key, step)
		case 1:
			n, err = kv.IncInt64(s.txn, key, step)
		default:
			n, err = t.HInc(key, f, step)
		}
		if !c.set {
			sym.Assert(err == nil && n == step, "a counter starts at zero")
			sym.Cover("first increment")
			return cell{set: true, isNum: true, num: step}
		}
		if via == 2 && !c.isNum && len(c.raw) == 0 {
			return cell{set: true, raw: nil, isNum: err == nil, num: n} // an empty field counts as zero
		}
		old, ok := c.asNum()
		if !ok {
			sym.Assert(err != nil, "incrementing a non-number fails")
			sym.Cover("increment of a non-number")
			return c
		}
		sym.Assert(err == nil, "increment succeeds")
		sym.Assert(n == old+step, "increment returns the sum")
		sym.Cover("increment")
		return cell{set: true, isNum: true, num: old + step}
	case 3:
		var n int64
		var err error
		switch via {
		case 0:
			n, err = t.GetInt64(key)
		case 1:
			n, err = kv.GetInt64(s.txn, key)
		default:
			n, err = t.HGetInt64(key, f)
		}
		if !c.set {
			sym.Assert(err == kv.ErrKeyNotFound, "an absent counter is not found")
			return c
		}
		v, ok := c.asNum()
		if !ok {
			sym.Assert(err != nil, "reading a non-number as a number fails")
			sym.Cover("read of a non-number")
			return c
		}
		sym.Assert(err == nil && n == v, "a number reads back")
		sym.Cover("read")
		return c
	default:
		var err error
		switch via {
		case 0:
			err = t.Clear(key)
		case 1:
			err = s.txn.Delete(key)
		default:
			err = t.HDel(key, f)
		}
		sym.Assert(err == nil, "clear succeeds")
		sym.Cover("clear")
		return cell{}
	}
}

// every sequence of operations of the bound on one string, raw key or hash field.
//
//sym:opt secs=250 tsecs=2000
func C08_Sequences() {
	s := begin([]byte("p"), sym.FixBool(sym.Bool("split")))
	key := []byte("k")
	via := sym.Choice("via", 3)
	var c cell
	for i := 0; i < pick(3, 4); i++ {
		c = counterOp(s.t(), s, via, key, c)
		s.step()
	}
	var v []byte
	var err error
	switch via {
	case 0:
		v, err = s.t().Get(key)
	case 1:
		v, _, err = s.txn.Get(key)
	default:
		v, err = s.t().HGet(key, []byte("f"))
	}
	switch {
	case !c.set:
		sym.Assert(err == kv.ErrKeyNotFound, "nothing is stored where nothing was put")
	case !c.isNum:
		sym.Assert(err == nil && eq(v, c.raw), "a string reads back exactly as last written")
	default:
		sym.Assert(err == nil, "a counter reads back")
		c2 := counterRead(s, via, key)
		sym.Assert(c2 == c.num, "a counter holds the exact sum")
	}
	s.end(!c.set)
	sym.Cover("end")
}

func counterRead(s *session, via int, key []byte) int64 {
	var n int64
	var err error
	switch via {
	case 0:
		n, err = s.t().GetInt64(key)
	case 1:
		n, err = kv.GetInt64(s.txn, key)
	default:
		n, err = s.t().HGetInt64(key, []byte("f"))
	}
	sym.Assert(err == nil, "a counter reads back")
	return n
}

// two counters of every kind, incremented in turn: no cross-talk, exact sums.
func C08_TwoCounters() {
	s := begin([]byte("p"), sym.FixBool(sym.Bool("split")))
	a, b := []byte("a"), []byte("b")
	f, g := []byte("f"), []byte("g")
	var sum [4]int64
	for i := 0; i < pick(3, 4); i++ {
		k := sym.Choice("which", 4)
		step := sym.Int64("step")
		var n int64
		var err error
		switch k {
		case 0:
			n, err = s.t().Inc(a, step)
		case 1:
			n, err = s.t().Inc(b, step)
		case 2:
			n, err = s.t().HInc(a, f, step)
		default:
			n, err = s.t().HInc(a, g, step)
		}
		sum[k] += step
		sym.Assert(err == nil && n == sum[k], "increment returns the exact sum so far")
		s.step()
	}
	sym.Cover("end")
}

// long strings: one arbitrary string of up to four encoding groups.
func C08_LongStrings() {
	s := begin([]byte("p"), false)
	k1, k2 := name("k1", 0, 1, 7, 8, 9, 16), name("k2", 0, 1, 8, 9)
	v1, v2 := name("v1", 0, 1, 33), name("v2", 0, 3)
	sym.Assert(s.t().Set(k1, v1) == nil, "set succeeds")
	sym.Assert(s.t().Set(k2, v2) == nil, "set succeeds")
	s.commit()
	x, err := s.t().Get(k2)
	sym.Assert(err == nil && eq(x, v2), "a string reads back exactly as last written")
	x, err = s.t().Get(k1)
	if eq(k1, k2) {
		v1 = v2
	}
	sym.Assert(err == nil && eq(x, v1), "a string reads back exactly as last written")
	sym.Assert(s.t().Clear(k1) == nil, "clear succeeds")
	_, err = s.t().Get(k1)
	sym.Assert(err == kv.ErrKeyNotFound, "a cleared string is not found")
	sym.Cover("end")
}
