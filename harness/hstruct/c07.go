package hstruct

import (
	"bytes"

	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// omap is the oracle: an association list without duplicate fields. A counter is a
// value whose text is the decimal form of num.
type oent struct {
	f, v  []byte
	isNum bool
	num   int64
}
type omap []oent

func (m omap) find(f []byte) int {
	for i := range m {
		if bytes.Equal(m[i].f, f) {
			return i
		}
	}
	return -1
}

func (m omap) put(e oent) omap {
	n := append(omap{}, m...)
	if i := n.find(e.f); i >= 0 {
		n[i] = e
		return n
	}
	return append(n, e)
}

func (m omap) del(f []byte) omap {
	i := m.find(f)
	if i < 0 {
		return m
	}
	n := append(omap{}, m[:i]...)
	return append(n, m[i+1:]...)
}

func fieldName(n string) []byte { return sym.Bytes(n, 1) }

// hashOp performs one arbitrary operation on the hash and on the oracle.
func hashOp(t *structure.TxStructure, key []byte, m omap) omap {
	switch sym.Choice("op", 7) {
	case 0, 1:
		f, v := fieldName("f"), sym.Bytes("v", sym.Choice("v.len", 2))
		sym.Assert(t.HSet(key, f, v) == nil, "set succeeds")
		sym.Cover("set")
		return m.put(oent{f: f, v: v})
	case 2:
		f := fieldName("f")
		step := sym.Int64("step")
		i := m.find(f)
		if i >= 0 && !m[i].isNum {
			return m // reading arbitrary text as a number is C08's
		}
		var old int64
		if i >= 0 {
			old = m[i].num
		}
		n, err := t.HInc(key, f, step)
		sym.Assert(err == nil, "increment succeeds")
		sym.Assert(n == old+step, "increment returns the sum")
		sym.Cover("increment")
		return m.put(oent{f: f, isNum: true, num: old + step})
	case 3:
		f := fieldName("f")
		sym.Assert(t.HDel(key, f) == nil, "delete succeeds")
		sym.Cover("delete")
		return m.del(f)
	case 4:
		f, g := fieldName("f"), fieldName("g")
		sym.Assert(t.HDel(key, f, g) == nil, "delete of several fields succeeds")
		sym.Cover("delete two")
		return m.del(f).del(g)
	case 5:
		f := fieldName("f")
		v := sym.Int64("v")
		sym.Assert(t.HSetInt64(key, f, v) == nil, "set succeeds")
		return m.put(oent{f: f, isNum: true, num: v})
	default:
		sym.Assert(t.HClear(key) == nil, "clear succeeds")
		sym.Cover("clear")
		return nil
	}
}

func sameVal(t *structure.TxStructure, key []byte, e oent, v []byte) {
	if !e.isNum {
		sym.Assert(eq(v, e.v), "a field reads back as last written")
		return
	}
	n, err := t.HGetInt64(key, e.f)
	sym.Assert(err == nil && n == e.num, "a numeric field reads back as last written")
}

// pairsAre checks a listing against the first n entries of the oracle in order.
func pairsAre(t *structure.TxStructure, key []byte, ps []structure.HashPair, m omap, n int, desc bool, vals bool) {
	want := len(m)
	if n < want {
		want = n
	}
	sym.Assert(len(ps) == want, "a listing returns as many fields as there are, up to the count")
	for i := range ps {
		j := m.find(ps[i].Field)
		sym.Assert(j >= 0, "a listing returns only fields that are present")
		if vals {
			sameVal(t, key, m[j], ps[i].Value)
		}
		if i > 0 {
			if desc {
				sym.Assert(sym.LessBytes(ps[i].Field, ps[i-1].Field), "the descending listing descends")
			} else {
				sym.Assert(sym.LessBytes(ps[i-1].Field, ps[i].Field), "a listing ascends")
			}
		}
	}
	// a truncated listing holds the extreme fields
	if want < len(m) && want > 0 {
		last := ps[want-1].Field
		for _, e := range m {
			in := false
			for i := range ps {
				in = in || bytes.Equal(ps[i].Field, e.f)
			}
			if !in {
				if desc {
					sym.Assert(sym.LessBytes(e.f, last), "a truncated descending listing keeps the largest fields")
				} else {
					sym.Assert(sym.LessBytes(last, e.f), "a truncated listing keeps the smallest fields")
				}
			}
		}
	}
}

func hashIs(t *structure.TxStructure, key []byte, m omap) {
	n, err := t.HLen(key)
	sym.Assert(err == nil, "length succeeds")
	sym.Assert(n == int64(len(m)), "length is the number of fields present")
	for _, e := range m {
		v, err := t.HGet(key, e.f)
		sym.Assert(err == nil, "a present field is found")
		sameVal(t, key, e, v)
	}
	f := fieldName("probe")
	if m.find(f) < 0 {
		_, err := t.HGet(key, f)
		sym.Assert(err == kv.ErrKeyNotFound, "an absent field is not found")
	}
	ps, err := t.HGetAll(key)
	sym.Assert(err == nil, "listing succeeds")
	pairsAre(t, key, ps, m, len(m), false, true)
	ks, err := t.HKeys(key)
	sym.Assert(err == nil && len(ks) == len(ps), "listing the fields succeeds")
	for i := range ks {
		sym.Assert(eq(ks[i], ps[i].Field), "the fields are listed in the same order")
	}
	for c := 0; c <= len(m)+1; c++ {
		ps, err = t.HGetN(key, c)
		sym.Assert(err == nil, "listing succeeds")
		pairsAre(t, key, ps, m, c, false, true)
		ps, err = t.HGetNDesc(key, c)
		sym.Assert(err == nil, "listing succeeds")
		pairsAre(t, key, ps, m, c, true, true)
	}
}

// every sequence of operations of the bound over arbitrary one-byte fields (possibly
// equal) and values, in one transaction or with a commit after each.
//
//sym:opt secs=250 tsecs=2000 steps=6000000
func C07_Sequences() {
	s := begin([]byte("p"), sym.FixBool(sym.Bool("split")))
	key := []byte("k")
	var m omap
	for i := 0; i < pick(3, 4); i++ {
		m = hashOp(s.t(), key, m)
		s.step()
	}
	hashIs(s.t(), key, m)
	s.end(len(m) == 0)
	sym.Cover("end")
}

// one arbitrary operation on a hash holding arbitrary fields, with a neighbour on
// either side in the store (other hashes with smaller and larger names).
//
//sym:opt secs=200 tsecs=1500 steps=6000000
func C07_FromAnyState() {
	s := begin(sym.Bytes("prefix", sym.Choice("prefix.len", 2)), false)
	key := []byte("k")
	var m omap
	sym.Assert(s.t().HSet([]byte("j"), []byte("x"), []byte("1")) == nil, "set succeeds")
	sym.Assert(s.t().HSet([]byte("k\x00"), []byte("x"), []byte("1")) == nil, "set succeeds")
	sym.Assert(s.t().LPush(key, []byte("e")) == nil, "push succeeds")
	for i := sym.Choice("fields", pick(3, 4)); i > 0; i-- {
		f, v := sym.Bytes("e", sym.Choice("e.len", 2)), sym.Bytes("ev", sym.Choice("ev.len", 2))
		sym.Assert(s.t().HSet(key, f, v) == nil, "set succeeds")
		m = m.put(oent{f: f, v: v})
	}
	if sym.FixBool(sym.Bool("commit")) {
		s.commit()
	}
	m = hashOp(s.t(), key, m)
	hashIs(s.t(), key, m)
	s.end(false)
	sym.Cover("end")
}

// fields longer than one encoding group, and fields that extend one another.
//
//sym:opt secs=200 tsecs=1500 steps=6000000
func C07_LongFields() {
	s := begin([]byte("p"), false)
	key := name("key", 0, 8)
	var m omap
	for i := 0; i < 2; i++ {
		f := name("f", 0, 1, 7, 8, 9)
		v := sym.Bytes("v", 1)
		sym.Assert(s.t().HSet(key, f, v) == nil, "set succeeds")
		m = m.put(oent{f: f, v: v})
	}
	hashIs(s.t(), key, m)
	for len(m) > 0 {
		sym.Assert(s.t().HDel(key, m[0].f) == nil, "delete succeeds")
		m = m.del(m[0].f)
		hashIs(s.t(), key, m)
	}
	s.end(true)
	sym.Cover("end")
}

// hashes of many fields, next to other hashes: filled, counted, listed, changed and
// taken apart or cleared.
//
//sym:opt secs=100 steps=30000000
func C07_Many() {
	s := begin([]byte("p"), false)
	key := []byte("k")
	sizes := []int{12, 40, 260}
	n := sizes[sym.Choice("size", len(sizes))]
	field := func(i int) []byte { return []byte{byte(i >> 8), byte(i)} }
	sym.Assert(s.t().HSet([]byte("j"), field(0), []byte("1")) == nil, "set succeeds")
	sym.Assert(s.t().HSet([]byte("k\x00"), field(0), []byte("1")) == nil, "set succeeds")
	down := sym.FixBool(sym.Bool("downwards"))
	val := make([][]byte, n)
	for i := 0; i < n; i++ {
		j := i
		if down {
			j = n - 1 - i
		}
		val[j] = []byte{byte(j)}
		sym.Assert(s.t().HSet(key, field(j), val[j]) == nil, "set succeeds")
		l, err := s.t().HLen(key)
		sym.Assert(err == nil && l == int64(i+1), "length is the number of fields present")
	}
	s.commit()
	at := sym.Choice("at", 3) * (n - 1) / 2
	val[at] = sym.Bytes("v", 1)
	sym.Assert(s.t().HSet(key, field(at), val[at]) == nil, "set succeeds")
	check := func(first, last int) {
		l, err := s.t().HLen(key)
		sym.Assert(err == nil && l == int64(last-first), "length is the number of fields present")
		all, err := s.t().HGetAll(key)
		sym.Assert(err == nil && len(all) == last-first, "a listing returns every field once")
		ks, err := s.t().HKeys(key)
		sym.Assert(err == nil && len(ks) == len(all), "listing the fields succeeds")
		for i, p := range all {
			sym.Assert(eq(p.Field, field(first+i)) && eq(p.Value, val[first+i]) && eq(ks[i], p.Field), "a listing goes in ascending order")
		}
		for _, c := range []int{1, 11, last - first, last - first + 1} {
			want := c
			if want > last-first {
				want = last - first
			}
			up, err := s.t().HGetN(key, c)
			sym.Assert(err == nil && len(up) == want, "a listing returns as many fields as there are, up to the count")
			dn, err := s.t().HGetNDesc(key, c)
			sym.Assert(err == nil && len(dn) == want, "a listing returns as many fields as there are, up to the count")
			for i := 0; i < want; i++ {
				sym.Assert(eq(up[i].Field, field(first+i)) && eq(up[i].Value, val[first+i]), "a listing goes in ascending order")
				sym.Assert(eq(dn[i].Field, field(last-1-i)) && eq(dn[i].Value, val[last-1-i]), "a listing from the end goes in descending order")
			}
		}
	}
	check(0, n)
	switch sym.Choice("end", 3) {
	case 0:
		sym.Assert(s.t().HClear(key) == nil, "clearing succeeds")
		check(0, 0)
	case 1:
		var fs [][]byte
		for i := 0; i < n-2; i++ {
			fs = append(fs, field(i))
		}
		sym.Assert(s.t().HDel(key, fs...) == nil, "deleting succeeds")
		check(n-2, n)
	default:
		for i := 0; i < n; i++ {
			sym.Assert(s.t().HDel(key, field(i)) == nil, "deleting succeeds")
		}
		check(0, 0)
	}
	sym.Assert(s.t().HClear([]byte("j")) == nil && s.t().HClear([]byte("k\x00")) == nil && s.t().HClear(key) == nil, "clearing succeeds")
	s.end(true)
	sym.Cover("end")
}
