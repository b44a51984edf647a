package hprov

import (
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// C17_Single: operations outside transactions, batches and reopenings, against an ideal map.
//
//sym:opt steps=4000000
func C17_Single() {
	dir := sym.TempDir("badger")
	db := openBadger(dir)
	var m ideal
	for n := pick(2, 3); n > 0; n-- {
		switch sym.Choice("op", 6) {
		case 0:
			m = setOne(db, m)
		case 1:
			k := str("k", 1)
			sym.Assert(db.Delete(k) == nil, "a delete succeeds")
			m = m.without(k)
		case 2:
			m = batch(db, m)
		case 3:
			time.Sleep(2 * time.Second)
		case 4:
			sym.Assert(db.Close() == nil, "the store closes")
			db = openBadger(dir)
		case 5:
			m.check(db, str("k", 1), "meanwhile")
		}
	}
	m.check(db, str("probe", 1), "at the end")
	for _, r := range m {
		m.check(db, r.key, "at the end")
	}
	sym.Cover("checked")
	db.Close()
}

type setter interface {
	Set(k, v []byte, meta *mondis.VMetaReq) error
}

func setOne(db setter, m ideal) ideal {
	r := rec{key: str("k", 1), val: str("v", 0, 2)}
	q := meta("meta", &r)
	before := time.Now()
	err := db.Set(clone(r.key), clone(r.val), q)
	r.stamp(q, before, time.Now())
	sym.Assert(err == nil, "a set succeeds")
	return m.with(r)
}

func batch(db mondis.KVDB, m ideal) ideal {
	wb := db.WriteBatch()
	after := m
	for i := 0; i < 2; i++ {
		k := str("bk", 1)
		if flip("batch deletes") {
			sym.Assert(wb.Delete(clone(k)) == nil, "a batched delete is accepted")
			after = after.without(k)
		} else {
			v := str("bv", 1)
			sym.Assert(wb.Set(clone(k), clone(v)) == nil, "a batched set is accepted")
			after = after.with(rec{key: k, val: v})
		}
	}
	if flip("batch is discarded") {
		wb.Discard()
		sym.Cover("batch discarded")
		return m
	}
	sym.Assert(wb.Commit() == nil, "a batch commits")
	wb.Discard()
	sym.Cover("batch committed")
	return after
}

// C17_Txn: one transaction among operations outside it, over two keys.
//
//sym:opt steps=6000000
func C17_Txn() {
	db := openBadger(sym.TempDir("badger"))
	keys := [][]byte{[]byte("a"), []byte("ab")}
	var m ideal
	for _, k := range keys {
		if flip("exists") {
			v := str("v0", 1)
			sym.Assert(db.Set(k, v, nil) == nil, "a set succeeds")
			m = m.with(rec{key: k, val: v})
		}
	}
	update := flip("update")
	t := db.NewTransaction(update)
	see := m
	var read, wrote, changed [2]bool
	for n := pick(3, 4); n > 0; n-- {
		op := sym.Choice("op", 11)
		k := keys[op%2]
		switch op / 2 {
		case 0: // outside
			if flip("deleted") {
				sym.Assert(db.Delete(k) == nil, "a delete succeeds")
				m = m.without(k)
			} else {
				v := str("v", 1)
				sym.Assert(db.Set(k, clone(v), nil) == nil, "a set succeeds")
				m = m.with(rec{key: k, val: v})
			}
			changed[op%2] = true
		case 1:
			if op%2 == 0 {
				v := str("v", 1)
				o := db.NewTransaction(true)
				for i, k := range keys {
					o.Set(k, clone(v), nil)
					m = m.with(rec{key: k, val: v})
					changed[i] = true
				}
				sym.Assert(o.Commit() == nil, "a commit without conflict succeeds")
				o.Discard()
				break
			}
			n := 0
			err := t.Scan(mondis.ProviderScanOption{}, func(key, value []byte, _ mondis.VMetaResp) bool {
				n++
				i := see.find(key)
				sym.Assert(i >= 0, "a scan shows keys the transaction sees")
				sym.Assert(eq(value, see[i].val), "a scan shows the values the transaction sees")
				// a scan reads its own writes, too
				j := 0
				if len(key) > 1 {
					j = 1
				}
				read[j] = true
				return true
			})
			sym.Assert(err == nil, "a scan succeeds")
			sym.Assert(n == len(see), "a scan shows every key the transaction sees")
		case 2:
			see.check(t, k, "in a transaction")
			if !wrote[op%2] {
				read[op%2] = true
			}
		case 3, 4:
			r := rec{key: k}
			var err error
			if op/2 == 3 {
				r.val = str("v", 1)
				err = t.Set(k, clone(r.val), nil)
			} else {
				err = t.Delete(k)
			}
			if !update {
				sym.Assert(err != nil, "a read-only transaction refuses writes")
				sym.Cover("refused")
				break
			}
			sym.Assert(err == nil, "a write in an update transaction is accepted")
			wrote[op%2] = true
			if op/2 == 3 {
				see = see.with(r)
			} else {
				see = see.without(k)
			}
		case 5:
			n = 1
		}
	}
	for _, k := range keys {
		m.check(db, k, "outside before the commit")
	}
	if flip("discarded") {
		t.Discard()
	} else {
		conflict := (wrote[0] || wrote[1]) && (read[0] && changed[0] || read[1] && changed[1])
		err := t.Commit()
		t.Discard()
		if conflict {
			sym.Assert(err != nil, "a commit fails when a key the transaction read was changed meanwhile")
			sym.Cover("conflict")
		} else {
			sym.Assert(err == nil, "a commit without conflict succeeds")
			for i, k := range keys {
				if wrote[i] {
					m = m.without(k)
					if j := see.find(k); j >= 0 {
						m = m.with(see[j])
					}
				}
			}
			sym.Cover("committed")
		}
	}
	for _, k := range keys {
		m.check(db, k, "at the end")
	}
	db.Close()
}

// C17_Meta: metadata set in a transaction shows before and after the commit.
func C17_Meta() {
	db := openBadger(sym.TempDir("badger"))
	var m ideal
	if flip("existed") {
		m = setOne(db, m)
	}
	t := db.NewTransaction(true)
	in := setOne(t, m)
	if flip("twice") {
		r := rec{key: str("k", 1), val: str("v", 1), tag: sym.Byte("tag")}
		sym.Assert(t.Set(clone(r.key), clone(r.val), &mondis.VMetaReq{Tag: r.tag}) == nil, "a set succeeds")
		in = in.with(r)
	}
	for _, r := range in {
		in.check(t, r.key, "before the commit")
	}
	for _, r := range in {
		m.check(db, r.key, "outside before the commit")
	}
	sym.Assert(t.Commit() == nil, "a commit succeeds")
	t.Discard()
	if flip("later") {
		time.Sleep(2 * time.Second)
		sym.Cover("later")
	}
	for _, r := range in {
		in.check(db, r.key, "after the commit")
	}
	db.Close()
}

// C17_Values: what get returned is the caller's: it stays the same when the transaction
// and the store are gone, and changing it changes nothing in the store.
func C17_Values() {
	dir := sym.TempDir("badger")
	db := openBadger(dir)
	want := sym.Bytes("v", 40)
	k := []byte("k")
	mine := clone(want)
	var got []byte
	var err error
	switch sym.Choice("from", 3) {
	case 0: // outside
		db.Set(clone(k), mine, nil)
		got, _, err = db.Get(k)
	case 1: // the transaction's own write
		t := db.NewTransaction(true)
		t.Set(clone(k), mine, nil)
		got, _, err = t.Get(k)
		sym.Assert(eq(got, want), "the value is the one set")
		if flip("changed before the commit") {
			for i := range got {
				got[i] ^= 0x55
			}
			got = nil
		}
		t.Commit()
		t.Discard()
	case 2: // a snapshot
		db.Set(clone(k), mine, nil)
		t := db.NewTransaction(flip("update"))
		got, _, err = t.Get(k)
		t.Discard()
	}
	sym.Assert(err == nil, "a key that was set is found")
	if flip("changed") {
		for i := range got {
			got[i] ^= 0x55
		}
		got = nil
	}
	again, _, err := db.Get(k)
	sym.Assert(err == nil && eq(again, want), "changing a value that was returned does not change the store")
	db.Close()
	if got != nil {
		sym.Assert(intact(got, want), "a value that was returned stays intact")
	}
	sym.Assert(intact(again, want), "a value that was returned stays intact")
	db = openBadger(dir)
	again, _, err = db.Get(k)
	sym.Assert(err == nil && eq(again, want), "a value survives closing and opening the store")
	db.Close()
}

// C17_TooBig: a transaction that is full says so in the documented way.
func C17_TooBig() {
	db := openBadger(sym.TempDir("badger"))
	v := str("v", 1)
	db.Set([]byte("k"), clone(v), nil)
	t := db.NewTransaction(true)
	fill(t)
	var err error
	switch sym.Choice("op", 3) {
	case 0:
		err = t.Set([]byte("key"), str("w", 1), nil)
	case 1:
		err = t.Set([]byte("key"), str("w", 1), &mondis.VMetaReq{Tag: 3})
	case 2:
		err = t.Delete([]byte("k"))
	}
	sym.Assert(err == kv.ErrTxnTooBig, "a write that does not fit is reported as too big")
	got, _, err := t.Get([]byte("k"))
	sym.Assert(err == nil && eq(got, v), "a write that does not fit has no effect")
	t.Discard()
	got, _, err = db.Get([]byte("k"))
	sym.Assert(err == nil && eq(got, v), "a write that does not fit has no effect")
	db.Close()
}

// C17_Refused: what the store cannot do is reported, not ignored.
func C17_Refused() {
	db := openBadger(sym.TempDir("badger"))
	old := str("v", 1)
	db.Set([]byte("k"), clone(old), nil)
	var bad []byte
	switch sym.Choice("key", 3) {
	case 0:
		bad = []byte{}
	case 1:
		bad = append([]byte("!badger!"), str("rest", 0, 1)...)
	case 2:
		bad = make([]byte, 65001)
	}
	readable := len(bad) != 0
	w := str("w", 1)
	var q *mondis.VMetaReq
	if flip("with metadata") {
		q = &mondis.VMetaReq{Tag: 1}
	}
	where := sym.Choice("where", 4)
	switch where {
	case 0, 1: // outside, in an update transaction
		var s mondis.CommonKVOP = db
		var t mondis.ProviderTxn
		if where == 1 {
			t = db.NewTransaction(true)
			s = t
		}
		switch sym.Choice("op", 4) {
		case 0:
			sym.Assert(s.Set(bad, w, q) != nil, "an unusable key is refused")
		case 1:
			sym.Assert(s.Delete(bad) != nil, "an unusable key is refused")
		case 2:
			ok, err := s.Exists(bad)
			sym.Assert(!ok, "an unusable key does not exist")
			sym.Assert(readable == (err == nil), "looking an empty key up is an error, not a missing key")
		case 3:
			_, _, err := s.Get(bad)
			sym.Assert(err != nil, "an unusable key is not found")
			sym.Assert(readable == (err == kv.ErrKeyNotFound), "reading an empty key is an error, not a missing key")
		}
		if t != nil {
			sym.Assert(t.Commit() == nil, "a transaction commits after a refused operation")
			t.Discard()
		}
	case 2: // in a batch
		wb := db.WriteBatch()
		if flip("delete") {
			sym.Assert(wb.Delete(bad) != nil, "an unusable key is refused")
		} else {
			sym.Assert(wb.Set(bad, w) != nil, "an unusable key is refused")
		}
		wb.Discard()
	case 3: // in a transaction that has ended
		t := db.NewTransaction(true)
		if flip("committed") {
			t.Commit()
		}
		t.Discard()
		k := []byte("k")
		switch sym.Choice("op", 4) {
		case 0:
			sym.Assert(t.Set(k, w, q) != nil, "a transaction that has ended refuses a set")
		case 1:
			sym.Assert(t.Delete(k) != nil, "a transaction that has ended refuses a delete")
		case 2:
			ok, err := t.Exists(k)
			sym.Assert(err != nil && !ok, "a transaction that has ended refuses a read")
		case 3:
			_, _, err := t.Get(k)
			sym.Assert(err != nil && err != kv.ErrKeyNotFound, "a transaction that has ended refuses a read")
		}
	}
	n := 0
	err := db.Scan(mondis.ProviderScanOption{}, func(key, value []byte, _ mondis.VMetaResp) bool {
		n++
		sym.Assert(eq(key, []byte("k")) && eq(value, old), "a refused operation has no effect")
		return true
	})
	sym.Assert(err == nil && n == 1, "a refused operation has no effect")
	db.Close()
}

// C17_Many: transactions that write, read and scan many keys, while another one does.
//
//sym:opt steps=60000000
func C17_Many() {
	db := openBadger(sym.TempDir("badger"))
	n := []int{20, 150, 1100}[sym.Choice("size", 3)]
	ks, vs := many(n, str("v", 1))
	half := n / 2
	old := index(ks[:half], vs[:half])
	t := db.NewTransaction(true)
	for i := 0; i < half; i++ {
		sym.Assert(t.Set(clone(ks[i]), clone(vs[i]), nil) == nil, "a set in a transaction succeeds")
	}
	whole(t, old, mondis.ProviderScanOption{Reverse: flip("reverse")}, "in the transaction")
	whole(db, nil, mondis.ProviderScanOption{}, "before the commit")
	sym.Assert(t.Commit() == nil, "a commit succeeds")
	t.Discard()
	before := db.NewTransaction(false)
	t = db.NewTransaction(true)
	m := index(ks, vs)
	for i := half; i < n; i++ {
		sym.Assert(t.Set(clone(ks[i]), clone(vs[i]), nil) == nil, "a set in a transaction succeeds")
	}
	for i := 0; i < half; i += 3 {
		sym.Assert(t.Delete(clone(ks[i])) == nil, "a delete in a transaction succeeds")
		delete(m, string(ks[i]))
	}
	o := mondis.ProviderScanOption{Prefix: [][]byte{nil, []byte("p"), []byte("p\x01"), {0xff}}[sym.Choice("prefix", 4)], Reverse: flip("reverse")}
	if flip("offset") {
		o.Offset = append(clone(o.Prefix), byte(n/3))
	}
	whole(t, m, o, "in the transaction")
	if flip("discarded") {
		t.Discard()
		m = old
	} else {
		sym.Assert(t.Commit() == nil, "a commit succeeds")
		t.Discard()
	}
	whole(before, old, o, "in a transaction of before")
	before.Discard()
	whole(db, m, o, "at the end")
	for _, k := range ks {
		want, there := m[string(k)]
		got, _, err := db.Get(k)
		ok, eerr := db.Exists(k)
		sym.Assert(eerr == nil && ok == there, "exists tells what was set")
		if there {
			sym.Assert(err == nil && eq(got, want), "a get returns what was set")
		} else {
			sym.Assert(err == kv.ErrKeyNotFound, "a missing key is not found")
		}
	}
	db.Close()
	sym.Cover("end")
}
