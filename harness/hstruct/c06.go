package hstruct

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// deque is the oracle: element 0 is the leftmost.
type deque [][]byte

func (d deque) at(i int64) (int, bool) {
	if i < 0 {
		i += int64(len(d))
	}
	if i < 0 || i >= int64(len(d)) {
		return 0, false
	}
	return int(i), true
}

func value(n string) []byte { return sym.Bytes(n, sym.Choice(n+".len", 3)) }

// listOp performs one arbitrary operation on the list and on the oracle.
func listOp(t *structure.TxStructure, key []byte, d deque) deque {
	switch sym.Choice("op", 9) {
	case 0:
		v := value("v")
		sym.Assert(t.LPush(key, v) == nil, "push succeeds")
		return append(deque{v}, d...)
	case 1:
		v := value("v")
		sym.Assert(t.RPush(key, v) == nil, "push succeeds")
		return append(append(deque{}, d...), v)
	case 2:
		v, w := sym.Bytes("v", 1), sym.Bytes("w", 1)
		sym.Assert(t.LPush(key, v, w) == nil, "push succeeds")
		return append(deque{w, v}, d...)
	case 3:
		v, w := sym.Bytes("v", 1), sym.Bytes("w", 1)
		sym.Assert(t.RPush(key, v, w) == nil, "push succeeds")
		return append(append(deque{}, d...), v, w)
	case 4:
		v, err := t.LPop(key)
		if len(d) == 0 {
			sym.Assert(err == kv.ErrKeyNotFound, "popping an empty list is not found")
			return d
		}
		sym.Assert(err == nil, "pop of a non-empty list succeeds")
		sym.Assert(eq(v, d[0]), "left pop returns the leftmost element")
		sym.Cover("left pop")
		return d[1:]
	case 5:
		v, err := t.RPop(key)
		if len(d) == 0 {
			sym.Assert(err == kv.ErrKeyNotFound, "popping an empty list is not found")
			return d
		}
		sym.Assert(err == nil, "pop of a non-empty list succeeds")
		sym.Assert(eq(v, d[len(d)-1]), "right pop returns the rightmost element")
		sym.Cover("right pop")
		return d[:len(d)-1]
	case 6:
		i := sym.Int64("i")
		v := value("v")
		err := t.LSet(key, i, v)
		k, ok := d.at(i)
		if !ok {
			sym.Assert(err == kv.ErrKeyNotFound, "an out-of-range write is not found")
			return d
		}
		sym.Assert(err == nil, "an in-range write succeeds")
		d = append(deque{}, d...)
		d[k] = v
		sym.Cover("set")
		return d
	case 7:
		i := sym.Int64("i")
		v, err := t.LIndex(key, i)
		k, ok := d.at(i)
		if ok {
			sym.Assert(err == nil, "an in-range read succeeds")
			sym.Assert(eq(v, d[k]), "an indexed read returns that element")
			sym.Cover("index")
		} else {
			sym.Assert(v == nil, "an out-of-range read returns nothing")
			sym.Assert(err == nil || err == kv.ErrKeyNotFound, "an out-of-range read is not a failure")
		}
		return d
	default:
		sym.Assert(t.LClear(key) == nil, "clear succeeds")
		sym.Cover("clear")
		return nil
	}
}

// listIs compares everything observable with the oracle.
func listIs(t *structure.TxStructure, key []byte, d deque) {
	n, err := t.LLen(key)
	sym.Assert(err == nil, "length succeeds")
	sym.Assert(n == int64(len(d)), "length is the number of elements")
	all, err := t.LGetAll(key)
	sym.Assert(err == nil, "reading everything succeeds")
	sym.Assert(len(all) == len(d), "reading everything returns every element once")
	for i := range all {
		sym.Assert(eq(all[i], d[len(d)-1-i]), "reading everything goes right to left")
	}
	for i := range d {
		v, err := t.LIndex(key, int64(i))
		sym.Assert(err == nil && eq(v, d[i]), "an index counts from the left")
		v, err = t.LIndex(key, int64(i)-int64(len(d)))
		sym.Assert(err == nil && eq(v, d[i]), "a negative index counts from the right")
	}
}

// every sequence of operations of the bound from an empty list, in one transaction
// or with a commit after each.
//
//sym:opt secs=200 tsecs=1500 steps=6000000
func C06_Sequences() {
	s := begin([]byte("p"), sym.FixBool(sym.Bool("split")))
	key := []byte("k")
	var d deque
	for i := 0; i < pick(3, 4); i++ {
		d = listOp(s.t(), key, d)
		s.step()
	}
	listIs(s.t(), key, d)
	s.end(len(d) == 0)
	sym.Cover("end")
}

// one or two arbitrary operations on a list in an arbitrary reachable state: every
// shape up to four elements around an arbitrary left index, reached by pushing at one
// end and popping at the other.
//
//sym:opt secs=200 tsecs=1500 steps=6000000
func C06_FromAnyState() {
	s := begin([]byte("p"), false)
	key := name("key", 0, 1, 8, 9)
	var d deque
	// drift moves the window away from zero without leaving elements behind
	drift := sym.Choice("drift", 3)
	for i := 0; i < drift; i++ {
		v := []byte{byte(i)}
		if sym.FixBool(sym.Bool("drift left")) {
			sym.Assert(s.t().LPush(key, v) == nil, "push succeeds")
			d = append(deque{v}, d...)
			if len(d) > 1 {
				_, err := s.t().RPop(key)
				sym.Assert(err == nil, "pop succeeds")
				d = d[:len(d)-1]
			}
		} else {
			sym.Assert(s.t().RPush(key, v) == nil, "push succeeds")
			d = append(d, v)
			if len(d) > 1 {
				_, err := s.t().LPop(key)
				sym.Assert(err == nil, "pop succeeds")
				d = d[1:]
			}
		}
	}
	for i := sym.Choice("more", pick(2, 4)); i > 0; i-- {
		v := sym.Bytes("e", 1)
		sym.Assert(s.t().RPush(key, v) == nil, "push succeeds")
		d = append(d, v)
	}
	if sym.FixBool(sym.Bool("commit")) {
		s.commit()
	}
	for i := 0; i < pick(1, 2); i++ {
		d = listOp(s.t(), key, d)
	}
	listIs(s.t(), key, d)
	s.end(len(d) == 0)
	sym.Cover("end")
}

// pushing several values at once equals pushing them one by one.
//
//sym:opt secs=60
func C06_Batch() {
	a, b := begin([]byte("p"), false), begin([]byte("p"), false)
	key := []byte("k")
	n := sym.Choice("n", 4)
	left := sym.FixBool(sym.Bool("left"))
	var vs [][]byte
	for i := 0; i < n; i++ {
		vs = append(vs, value("v"))
	}
	var err error
	if left {
		err = a.t().LPush(key, vs...)
	} else {
		err = a.t().RPush(key, vs...)
	}
	sym.Assert(err == nil, "push succeeds")
	for _, v := range vs {
		if left {
			err = b.t().LPush(key, v)
		} else {
			err = b.t().RPush(key, v)
		}
		sym.Assert(err == nil, "push succeeds")
	}
	x, e1 := a.t().LGetAll(key)
	y, e2 := b.t().LGetAll(key)
	sym.Assert(e1 == nil && e2 == nil && len(x) == n && len(y) == n, "every value pushed is there")
	for i := range x {
		sym.Assert(eq(x[i], y[i]), "pushing at once equals pushing one by one")
	}
	sym.Cover("end")
}

// lists of many elements: built at either end, read, changed at the ends and somewhere
// inside, and taken apart or cleared.
//
//sym:opt secs=100 steps=30000000
func C06_Many() {
	s := begin([]byte("p"), false)
	key := []byte("k")
	sizes := []int{12, 40, 260}
	n := sizes[sym.Choice("size", len(sizes))]
	left := sym.FixBool(sym.Bool("left"))
	var d deque
	once := []int{1, 7, n}[sym.Choice("at once", 3)]
	for i := 0; i < n; {
		var vs [][]byte
		for toLeft := left == (i%3 != 0); len(vs) < once && i < n; i++ {
			v := []byte{byte(i), byte(i >> 8)}
			vs = append(vs, v)
			if toLeft {
				d = append(deque{v}, d...)
			} else {
				d = append(d, v)
			}
			if len(vs) == once || i == n-1 {
				if toLeft {
					sym.Assert(s.t().LPush(key, vs...) == nil, "push succeeds")
				} else {
					sym.Assert(s.t().RPush(key, vs...) == nil, "push succeeds")
				}
			}
		}
	}
	s.commit()
	at := sym.Choice("at", 3) * (n - 1) / 2
	v := sym.Bytes("v", 1)
	sym.Assert(s.t().LSet(key, int64(at), v) == nil, "setting succeeds")
	d[at] = v
	listIs(s.t(), key, d)
	switch sym.Choice("end", 3) {
	case 0:
		sym.Assert(s.t().LClear(key) == nil, "clearing succeeds")
		d = nil
	default:
		for i := 0; len(d) > 0; i++ {
			var v []byte
			var err error
			w := d[0]
			if left == (i%4 == 0) {
				w = d[len(d)-1]
				v, err = s.t().RPop(key)
				d = d[:len(d)-1]
			} else {
				v, err = s.t().LPop(key)
				d = d[1:]
			}
			sym.Assert(err == nil && eq(v, w), "elements leave at the end asked for")
		}
	case 2:
		for i := 0; i < 3; i++ {
			_, err := s.t().RPop(key)
			sym.Assert(err == nil, "pop of a non-empty list succeeds")
		}
		d = d[:len(d)-3]
	}
	listIs(s.t(), key, d)
	s.end(len(d) == 0)
	sym.Cover("end")
}
