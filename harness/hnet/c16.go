package hnet

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func txn(db *store.DB, update bool, f func(t mondis.ProviderTxn) error) error {
	t := db.NewTransaction(update)
	defer t.Discard()
	if err := f(t); err != nil {
		return err
	}
	if update {
		return t.Commit()
	}
	return nil
}

// C16_Remote: a remote scan shows the first n entries of the local one, outside
// transactions and inside them.
//
//sym:opt steps=6000000 secs=90
func C16_Remote() {
	r := boot()
	for n := pick(2, 3); n > 0; n-- {
		r.put(str("pk", 1, 2), str("pv", 1), &mondis.VMetaReq{Tag: sym.Byte("tag")})
	}
	q := request{op: opScan}
	q.o.Reverse = flip("reverse")
	q.o.Prefix = str("prefix", 0, 1)
	if flip("offset") {
		q.o.Offset = append(clone(q.o.Prefix), sym.Bytes("offset", 1)...)
	}
	switch sym.Choice("where", 3) {
	case 0:
		q.n = []int{-1 << 63, -1, 0, 1, 2, mondis.MaxEntry + 1}[sym.Choice("limit", 6)]
		q.over(r.c).like(q.on(r.twin), opScan)
	case 1:
		q.n = []int{-1, 0, 1, 1<<63 - 1}[sym.Choice("limit", 4)]
		r.c.View(func(a mondis.Txn) error {
			return txn(r.twin, false, func(b mondis.ProviderTxn) error {
				q.over(a).like(q.on(b), opScan)
				return nil
			})
		})
	case 2:
		own := request{op: opSet + opDelete*sym.Choice("own", 2), k: str("own", 1), v: []byte("own")}
		q.n = []int{1, 2, mondis.MaxEntry}[sym.Choice("limit", 3)]
		r.c.Update(func(a mondis.Txn) error {
			return txn(r.twin, true, func(b mondis.ProviderTxn) error {
				own.over(a).like(own.on(b), own.op)
				q.over(a).like(q.on(b), opScan)
				return nil
			})
		})
	}
}

// C16_Many: no remote scan shows more than the documented maximum, and every one that
// may shows that many.
//
//sym:opt steps=200000000 secs=90 depth=20000
func C16_Many() {
	r := boot()
	const have = mondis.MaxEntry + 2
	key := func(i int) []byte { return []byte{'k', byte(i >> 8), byte(i)} }
	txn(r.db, true, func(t mondis.ProviderTxn) error {
		for i := 0; i < have; i++ {
			t.Set(key(i), []byte{byte(i)}, nil)
		}
		return nil
	})
	n := []int{mondis.MaxEntry - 1, mondis.MaxEntry, mondis.MaxEntry + 1, 1<<63 - 1}[sym.Choice("limit", 4)]
	o := mondis.ScanOption{Limit: n}
	o.Reverse = flip("reverse")
	var es []mondis.Entry
	var err error
	if flip("in a transaction") {
		r.c.View(func(t mondis.Txn) error {
			es, err = t.Scan(o)
			return nil
		})
	} else {
		es, err = r.c.Scan(o)
	}
	sym.Assert(err == nil, "a remote scan succeeds")
	if n > mondis.MaxEntry {
		n = mondis.MaxEntry
	}
	sym.Assert(len(es) <= mondis.MaxEntry, "a remote scan shows no more than the documented maximum")
	sym.Assert(len(es) == n, "a remote scan shows as many entries as its limit allows")
	for i, e := range es {
		j := i
		if o.Reverse {
			j = have - 1 - i
		}
		sym.Assert(eq(e.Key, key(j)) && eq(e.Value, []byte{byte(j)}), "a remote scan shows the first entries, in order")
	}
}
