package hkv

import (
	"bytes"

	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func hasPrefix(k, p []byte) bool { return len(k) >= len(p) && eq(k[:len(p)], p) }

func allFF(k []byte) bool {
	r := true
	for _, c := range k {
		r = sym.And(r, c == 0xff)
	}
	return r
}

// key with spare capacity, so that an append that reuses it would show.
func key(name string, max int) kv.Key {
	n := sym.Choice(name+".len", max+1)
	b := make([]byte, n, n+2)
	for i := range b {
		b[i] = sym.Byte(name)
	}
	return b
}

// Next is the immediate successor: greater, and nothing lies between.
//
//sym:opt secs=120
func C04_Next() {
	m := pick(4, 8)
	k := key("k", m)
	keep := clone(k)
	spare := clone(k[:cap(k)])
	n := k.Next()
	sym.Assert(bytes.Compare(n, k) > 0, "the next key is greater")
	x := str("x", m+2)
	sym.Assert(sym.Or(bytes.Compare(x, k) <= 0, bytes.Compare(x, n) >= 0), "no key lies between a key and its next")
	sym.Assert(eq(k, keep), "the key is unchanged")
	if len(n) > 0 {
		n[0] ^= 0x55
		sym.Assert(eq(k[:cap(k)], spare), "the next key does not share memory with the key")
	}
	sym.Cover("end")
}

// PrefixNext is the smallest key of its length above every key with that prefix.
//
//sym:opt secs=120
func C04_PrefixNext() {
	m := pick(4, 8)
	k := key("k", m)
	keep := clone(k)
	spare := clone(k[:cap(k)])
	n := k.PrefixNext()
	ff := allFF(k)
	x := str("x", m+2)
	in := hasPrefix(x, k)
	below := bytes.Compare(x, n) < 0
	sym.Assert(sym.Or(ff, sym.Implies(in, below)), "every key with the prefix is below the prefix-next key")
	sym.Assert(sym.Implies(sym.And(len(x) == len(k), bytes.Compare(x, k) > 0), sym.Or(ff, bytes.Compare(x, n) >= 0)), "no key of its length lies between a prefix and its prefix-next key")
	if ff {
		sym.Assert(eq(n, append(clone(k), 0)), "all-0xff keys fall back to the next key")
		sym.Cover("all ff")
	}
	sym.Assert(bytes.Compare(n, k) > 0, "the prefix-next key is greater")
	sym.Assert(eq(k, keep), "the key is unchanged")
	if len(n) > 0 {
		n[0] ^= 0x55
		sym.Assert(eq(k[:cap(k)], spare), "the prefix-next key does not share memory with the key")
	}
	sym.Cover("end")
}

// IsPoint, against its definition.
//
//sym:opt secs=120
func C04_IsPoint() {
	m := pick(5, 9)
	a, b := key("a", m), key("b", m)
	ka, kb := clone(a), clone(b)
	r := kv.KeyRange{StartKey: a, EndKey: b}
	got := r.IsPoint()
	next := append(clone(a), 0)
	same := eq(b, next)
	// prefix-next, stated independently: same length, b-a == 1 as big-endian numbers
	adj := false
	if len(a) == len(b) {
		carry := byte(1)
		adj = true
		for i := len(a) - 1; i >= 0; i-- {
			s := a[i] + carry
			adj = sym.And(adj, b[i] == s)
			if sym.And(carry == 1, s == 0) {
				carry = 1
			} else {
				carry = 0
			}
		}
		adj = sym.And(adj, carry == 0)
	}
	sym.Assert(got == sym.Or(same, adj), "a range is a point exactly when its end is the next or prefix-next key of its start")
	sym.Assert(sym.And(eq(a, ka), eq(b, kb)), "the range is unchanged")
	if got {
		sym.Cover("point")
	} else {
		sym.Cover("not a point")
	}
}

// Cmp, HasPrefix and Clone.
//
//sym:opt secs=120
func C04_CmpPrefixClone() {
	m := pick(4, 8)
	a, b := key("a", m), key("b", m)
	c := a.Cmp(b)
	// order stated independently
	lt, same := false, true
	for i := 0; i < len(a) && i < len(b); i++ {
		lt = sym.Or(lt, sym.And(same, a[i] < b[i]))
		same = sym.And(same, a[i] == b[i])
	}
	lt = sym.Or(lt, sym.And(same, len(a) < len(b)))
	same = sym.And(same, len(a) == len(b))
	sym.Assert(sym.Iff(c < 0, lt), "negative exactly for smaller keys")
	sym.Assert(sym.Iff(c == 0, same), "zero exactly for equal keys")
	sym.Assert(sym.Iff(a.HasPrefix(b), hasPrefix(a, b)), "prefix test agrees with bytes")
	keep := clone(a[:cap(a)])
	d := a.Clone()
	sym.Assert(eq(d, a), "a clone has the same bytes")
	if len(d) > 0 {
		d[0] ^= 1
		sym.Assert(eq(a[:cap(a)], keep), "changing a clone leaves the key alone")
	}
	sym.Cover("end")
}
