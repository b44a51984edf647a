package hnet

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// bulk is n bytes of which the first and the last are arbitrary.
func bulk(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*11 + i>>8)
	}
	b[0], b[n-1] = sym.Byte(name), sym.Byte(name)
	return b
}

// C14_Big: long keys and long values through single operations, and scans whose answer
// is long.
//
//sym:opt steps=200000000 secs=60 depth=20000
func C14_Big() {
	r := boot()
	sizes := []int{127, 128, 300, 5000, 17000, 70000}
	if sym.Thorough() {
		sizes = append(sizes, 255, 256, 1023, 1024, 4096, 16383, 16384, 65535, 65536, 1<<20+1)
	}
	n := sizes[sym.Choice("size", len(sizes))]
	k := []byte("k")
	if flip("long key") {
		k = bulk("key", 127+sym.Choice("key.len", 2)*800)
	}
	q := request{op: opSet, k: k, v: bulk("value", n), m: &mondis.VMetaReq{Tag: 7}}
	q.over(r.c).like(q.on(r.twin), q.op)
	for _, q := range []request{{op: opGet, k: k}, {op: opExists, k: k}, {op: opScan, n: 3}} {
		q.over(r.c).like(q.on(r.twin), q.op)
	}
	r.agree("after a large set")
	q = request{op: opDelete, k: k}
	q.over(r.c).like(q.on(r.twin), q.op)
	r.agree("after deleting")
	r.ended(0)
}

// C16_Large: scans over many long values, single and in a transaction.
//
//sym:opt steps=200000000 secs=60 depth=20000
func C16_Large() {
	r := boot()
	have, size := 130, []int{10, 1100, 9000}[sym.Choice("size", 3)]
	r.both(func(db mondis.KVDB) {
		for i := 0; i < have; i++ {
			v := make([]byte, size)
			v[0], v[size-1] = byte(i), byte(i)
			sym.Assert(db.Set([]byte{'k', byte(i)}, v, &mondis.VMetaReq{Tag: byte(i)}) == nil, "set succeeds")
		}
	})
	q := request{op: opScan, n: []int{1, 99, 101, 1000}[sym.Choice("limit", 4)]}
	q.o.Reverse = flip("reverse")
	q.o.Prefix = []byte("k")
	if flip("in a transaction") {
		r.c.View(func(t mondis.Txn) error {
			q.over(t).like(q.on(r.twin), q.op)
			q.over(t).like(q.on(r.twin), q.op)
			return nil
		})
	} else {
		q.over(r.c).like(q.on(r.twin), q.op)
	}
	r.ended(0)
}

// C15_Many: a transaction of many operations, with long values among them, ended in
// every way.
//
//sym:opt steps=200000000 secs=60 depth=20000
func C15_Many() {
	r := boot()
	t := r.twin.NewTransaction(true)
	n := []int{7, 17, 40, 130}[sym.Choice("n", 4)]
	kind := sym.Choice("kind", 3)
	key := func(i int) []byte { return []byte{'k', byte(i)} }
	end := sym.Choice("end", 2)
	err := r.c.Update(func(x mondis.Txn) error {
		for i := 0; i < n; i++ {
			q := request{op: opSet, k: key(i), v: []byte{byte(i)}, m: &mondis.VMetaReq{Tag: byte(i)}}
			switch {
			case kind == 1 && i%3 == 1:
				q = request{op: opGet, k: key(i - 1)}
			case kind == 1 && i%3 == 2:
				q = request{op: opDelete, k: key(i - 2)}
			case kind == 2:
				q.v = bulk("value", 100*i+2)
			}
			q.over(x).like(q.on(t), q.op)
		}
		for _, i := range []int{0, n / 2, n - 1} {
			q := request{op: opGet, k: key(i)}
			q.over(x).like(q.on(t), q.op)
		}
		q := request{op: opScan, n: 1000}
		q.over(x).like(q.on(t), q.op)
		if end == 1 {
			return errMine
		}
		return nil
	})
	if end == 1 {
		sym.Assert(err == errMine, "an update returns its callback's error")
	} else {
		sameErr(err, t.Commit(), "remote commit")
	}
	t.Discard()
	r.agree("after the transaction")
	r.ended(0)
	sym.Cover("end")
}
