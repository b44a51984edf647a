package hstruct

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

const (
	kString = iota
	kHash
	kList
)

// populate stores arbitrary contents.
func populate(t *structure.TxStructure, kind int, key []byte, n string) {
	switch kind {
	case kString:
		sym.Assert(t.Set(key, sym.Bytes(n+".v", 1)) == nil, "set succeeds")
	case kHash:
		f, g := name(n+".f", 0, 1), sym.Bytes(n+".g", 8)
		sym.Assert(t.HSet(key, f, sym.Bytes(n+".fv", 1)) == nil, "set succeeds")
		sym.Assert(t.HSet(key, g, sym.Bytes(n+".gv", 1)) == nil, "set succeeds")
	default:
		sym.Assert(t.LPush(key, sym.Bytes(n+".e1", 1)) == nil, "push succeeds")
		sym.Assert(t.RPush(key, sym.Bytes(n+".e2", 1)) == nil, "push succeeds")
	}
}

// observe reads everything the interface shows of one object.
func observe(t *structure.TxStructure, kind int, key []byte) (out [][]byte) {
	switch kind {
	case kString:
		v, err := t.Get(key)
		if err == kv.ErrKeyNotFound {
			return
		}
		sym.Assert(err == nil, "get succeeds")
		out = append(out, v)
	case kHash:
		n, err := t.HLen(key)
		sym.Assert(err == nil, "length succeeds")
		out = append(out, []byte{byte(n)})
		ps, err := t.HGetAll(key)
		sym.Assert(err == nil, "listing succeeds")
		for _, p := range ps {
			out = append(out, p.Field, p.Value)
		}
		ps, err = t.HGetNDesc(key, 9)
		sym.Assert(err == nil, "listing succeeds")
		for _, p := range ps {
			out = append(out, p.Field, p.Value)
		}
	default:
		n, err := t.LLen(key)
		sym.Assert(err == nil, "length succeeds")
		out = append(out, []byte{byte(n)})
		es, err := t.LGetAll(key)
		sym.Assert(err == nil, "reading everything succeeds")
		out = append(out, es...)
	}
	return
}

// mutate performs one arbitrary operation.
func mutate(t *structure.TxStructure, kind int, key []byte) {
	var err error
	switch kind {
	case kString:
		switch sym.Choice("op", 4) {
		case 0:
			err = t.Set(key, sym.Bytes("new", 1))
		case 1:
			err = t.SetInt64(key, sym.Int64("new"))
		case 2:
			err = t.Clear(key)
		default:
			t.Inc(key, 1)
		}
	case kHash:
		switch sym.Choice("op", 4) {
		case 0:
			err = t.HSet(key, name("new", 0, 1, 8), sym.Bytes("newv", 1))
		case 1:
			err = t.HDel(key, name("gone", 0, 1, 8), sym.Bytes("gone2", 1))
		case 2:
			err = t.HClear(key)
		default:
			t.HInc(key, sym.Bytes("new", 1), 1)
		}
	default:
		switch sym.Choice("op", 4) {
		case 0:
			err = t.LPush(key, sym.Bytes("new", 1))
		case 1:
			_, err = t.RPop(key)
			if err == kv.ErrKeyNotFound {
				err = nil
			}
		case 2:
			err = t.LClear(key)
		default:
			err = t.LSet(key, sym.Int64("i"), sym.Bytes("new", 1))
			if err == kv.ErrKeyNotFound {
				err = nil
			}
		}
	}
	sym.Assert(err == nil, "an operation in a working store succeeds")
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, eq(a[i], b[i]))
	}
	return r
}

func isolate(pa, pb []byte, ka, kb int, na, nb []byte) {
	s := begin(pa, false)
	ta := structure.New(s.txn, pa)
	tb := structure.New(s.txn, pb)
	populate(tb, kb, nb, "b")
	sym.Assert(same(observe(ta, ka, na), observe(structure.New(s.txn, pa), ka, na)), "reading changes nothing")
	if ka != kString {
		o := observe(ta, ka, na)
		sym.Assert(len(o) == 1 && o[0][0] == 0, "an object that was never written is empty")
	} else {
		sym.Assert(len(observe(ta, ka, na)) == 0, "an object that was never written is empty")
	}
	before := observe(tb, kb, nb)
	populate(ta, ka, na, "a")
	sym.Assert(same(before, observe(tb, kb, nb)), "writing one object leaves the other alone")
	mutate(ta, ka, na)
	sym.Assert(same(before, observe(tb, kb, nb)), "an operation on one object leaves the other alone")
	sym.Cover("end")
}

// two objects of every pair of kinds under arbitrary names that differ (or the same
// name used for two kinds).
//
//sym:opt secs=250 tsecs=2000 steps=8000000
func C09_Names() {
	ka, kb := sym.Choice("kind a", 3), sym.Choice("kind b", 3)
	var na, nb []byte
	if sym.Thorough() {
		na, nb = name("a", 0, 1, 7, 8, 9, 16), name("b", 0, 1, 8, 9, 15)
	} else {
		na, nb = name("a", 0, 1, 8), name("b", 0, 1, 9)
	}
	if ka == kb {
		sym.Assume(!eq(na, nb))
	}
	isolate([]byte("m"), []byte("m"), ka, kb, na, nb)
}

// two objects under prefixes of which neither starts with the other.
//
//sym:opt secs=250 tsecs=2000 steps=8000000
func C09_Prefixes() {
	ka, kb := sym.Choice("kind a", 3), sym.Choice("kind b", 3)
	pa, pb := sym.Bytes("pa", 1+sym.Choice("pa.len", 2)), sym.Bytes("pb", 2)
	sym.Assume(!eq(pa, pb[:len(pa)]))
	n := sym.Bytes("name", 1)
	isolate(pa, pb, ka, kb, n, n)
}

// two objects whose long names have a long common beginning, as have their fields.
//
//sym:opt secs=100 tsecs=600 steps=8000000
func C09_LongNames() {
	ka, kb := sym.Choice("kind a", 3), sym.Choice("kind b", 3)
	ls := []int{24, 32, 64, 127, 250, 1000}
	p := make([]byte, ls[sym.Choice("long", len(ls))])
	for i := range p {
		p[i] = byte(i * 5)
	}
	p[0], p[len(p)-1] = sym.Byte("first"), sym.Byte("last")
	na, nb := append(clone(p), name("a", 0, 1)...), append(clone(p), name("b", 0, 1, 2)...)
	if ka == kb {
		sym.Assume(!eq(na, nb))
	}
	s := begin([]byte("m"), false)
	t := s.t()
	populate(t, kb, nb, "b")
	if kb == kHash {
		sym.Assert(t.HSet(nb, na, []byte("x")) == nil, "set succeeds")
		sym.Assert(t.HSet(nb, append(clone(na), 0), []byte("y")) == nil, "set succeeds")
		v, err := t.HGet(nb, na)
		sym.Assert(err == nil && eq(v, []byte("x")), "long fields are kept apart")
	}
	before := observe(t, kb, nb)
	o := observe(t, ka, na)
	sym.Assert(len(o) == 0 || len(o) == 1 && o[0][0] == 0, "an object that was never written is empty")
	populate(t, ka, na, "a")
	sym.Assert(same(before, observe(t, kb, nb)), "writing one object leaves the other alone")
	switch {
	case ka == kString:
		sym.Assert(t.Clear(na) == nil, "clearing succeeds")
	case ka == kHash:
		sym.Assert(t.HClear(na) == nil, "clearing succeeds")
	default:
		sym.Assert(t.LClear(na) == nil, "clearing succeeds")
	}
	sym.Assert(same(before, observe(t, kb, nb)), "an operation on one object leaves the other alone")
	sym.Cover("end")
}
