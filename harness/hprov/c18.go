package hprov

import (
	"bytes"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func openLevel(dir string) mondis.KVDB {
	l := provider.NewLevelDB()
	err := l.Open(mondis.KVOption{Dir: dir})
	sym.Assert(err == nil, "the store opens")
	return l
}

// C18_Ops: operations, batches and reopenings against an ideal map.
//
//sym:opt steps=4000000
func C18_Ops() {
	dir := sym.TempDir("level")
	db := openLevel(dir)
	var m ideal
	for n := pick(2, 3); n > 0; n-- {
		switch sym.Choice("op", 5) {
		case 0:
			r := rec{key: str("k", 0, 1), val: str("v", 0, 2)}
			k, v := clone(r.key), clone(r.val)
			sym.Assert(db.Set(k, v, nil) == nil, "a set succeeds")
			for i := range v {
				v[i] ^= 0x55 // the caller's again
			}
			m = m.with(r)
		case 1:
			k := str("k", 0, 1)
			sym.Assert(db.Delete(k) == nil, "a delete succeeds")
			m = m.without(k)
		case 2:
			m = levelBatch(db, m)
		case 3:
			sym.Assert(db.Close() == nil, "the store closes")
			db = openLevel(dir)
		case 4:
			m.check(db, str("k", 0, 1), "meanwhile")
		}
	}
	m.check(db, str("probe", 0, 1), "at the end")
	for _, r := range m {
		m.check(db, r.key, "at the end")
	}
	sym.Cover("checked")
	db.Close()
}

func levelBatch(db mondis.KVDB, m ideal) ideal {
	wb := db.WriteBatch()
	after := m
	for n := sym.Choice("batched", 3); n > 0; n-- {
		r := rec{key: str("bk", 1)}
		k := clone(r.key)
		if flip("batch deletes") {
			sym.Assert(wb.Delete(k) == nil, "a batched delete is accepted")
			after = after.without(r.key)
		} else {
			r.val = str("bv", 0, 1)
			v := clone(r.val)
			sym.Assert(wb.Set(k, v) == nil, "a batched set is accepted")
			after = after.with(r)
		}
		m.check(db, r.key, "before the batch commits")
	}
	switch sym.Choice("end", 3) {
	case 0:
		wb.Discard()
		sym.Cover("discarded")
		return m
	case 1: // whoever still commits a discarded batch writes nothing
		wb.Discard()
		wb.Commit()
		sym.Cover("discarded")
		return m
	}
	sym.Assert(wb.Commit() == nil, "a batch commits")
	wb.Discard()
	sym.Cover("committed")
	return after
}

// C18_Order: the operations of one batch take effect in order.
func C18_Order() {
	db := openLevel(sym.TempDir("level"))
	var m ideal
	if flip("existed") {
		r := rec{key: []byte("a"), val: str("v0", 1)}
		db.Set(r.key, r.val, nil)
		m = m.with(r)
	}
	wb := db.WriteBatch()
	for n := pick(4, 6); n > 0; n-- {
		k := []byte("a")
		if flip("other") {
			k = []byte("b")
		}
		if flip("delete") {
			wb.Delete(k)
			m = m.without(k)
		} else {
			v := str("v", 1)
			wb.Set(k, clone(v))
			m = m.with(rec{key: k, val: v})
		}
	}
	sym.Assert(wb.Commit() == nil, "a batch commits")
	m.check(db, []byte("a"), "after the batch")
	m.check(db, []byte("b"), "after the batch")
	db.Close()
}

// C18_Scan: forward scans with any prefix, an offset anywhere and any stop.
//
//sym:opt steps=4000000 secs=90
func C18_Scan() {
	db := openLevel(sym.TempDir("level"))
	var m ideal
	for n := pick(2, 3); n > 0; n-- {
		r := rec{key: str("k", 0, 1, 2), val: str("v", 1)}
		db.Set(clone(r.key), clone(r.val), nil)
		m = m.with(r)
	}
	if flip("one deleted") {
		k := str("dead", 1)
		db.Delete(k)
		m = m.without(k)
	}
	var o mondis.ProviderScanOption
	if n := sym.Choice("prefix.len", pick(3, 4)); n > 0 {
		o.Prefix = sym.Bytes("prefix", n-1)
	}
	if n := sym.Choice("offset.len", pick(3, 4)); n > 0 {
		o.Offset = sym.Bytes("offset", n-1)
	}
	m.scan(db, o)
	db.Close()
}

// C18_Refused: what is not supported is refused without effect.
func C18_Refused() {
	db := openLevel(sym.TempDir("level"))
	old := str("v", 1)
	db.Set([]byte("k"), clone(old), nil)
	if flip("reverse scan") {
		o := options(1)
		o.Reverse = true
		err := db.Scan(o, func(key, value []byte, _ mondis.VMetaResp) bool {
			sym.Assert(false, "a refused scan visits nothing")
			return true
		})
		sym.Assert(err != nil, "a reversed scan is refused")
	} else {
		k := str("k", 1)
		q := &mondis.VMetaReq{TTL: time.Duration(sym.Int64("ttl")), Tag: sym.Byte("tag")}
		sym.Assert(db.Set(k, str("w", 1), q) != nil, "metadata is refused")
	}
	n := 0
	err := db.Scan(mondis.ProviderScanOption{}, func(key, value []byte, _ mondis.VMetaResp) bool {
		n++
		sym.Assert(eq(key, []byte("k")) && eq(value, old), "a refused operation has no effect")
		return true
	})
	sym.Assert(err == nil && n == 1, "a refused operation has no effect")
	db.Close()
}

// C18_Closed: a store that fails (here: one that has been closed) says so.
func C18_Closed() {
	db := openLevel(sym.TempDir("level"))
	k := str("k", 1)
	db.Set(k, str("v", 1), nil)
	wb := db.WriteBatch()
	wb.Set(k, str("w", 1))
	sym.Assert(db.Close() == nil, "the store closes")
	var err error
	switch sym.Choice("op", 7) {
	case 0:
		err = db.Set(k, str("w", 1), nil)
	case 1:
		err = db.Delete(k)
	case 2:
		_, _, err = db.Get(k)
		sym.Assert(err != kv.ErrKeyNotFound, "a failure to read is not reported as a missing key")
	case 3:
		_, err = db.Exists(k)
	case 4:
		err = db.Scan(forward(options(1)), func(key, value []byte, _ mondis.VMetaResp) bool { return true })
	case 5:
		err = wb.Commit()
	case 6:
		err = db.Close()
	}
	sym.Assert(err != nil, "a failure of the store is reported")
}

// C18_Values: what get returned is the caller's.
func C18_Values() {
	dir := sym.TempDir("level")
	db := openLevel(dir)
	want := sym.Bytes("v", 40)
	db.Set([]byte("k"), clone(want), nil)
	if flip("reopened") {
		db.Close()
		db = openLevel(dir)
	}
	got, _, err := db.Get([]byte("k"))
	sym.Assert(err == nil && eq(got, want), "the value is the one last set")
	if flip("changed") {
		for i := range got {
			got[i] ^= 0x55
		}
		got, _, _ = db.Get([]byte("k"))
	}
	db.Set([]byte("k"), bytes.Repeat([]byte{7}, 40), nil)
	sym.Assert(eq(got, want), "a value that was returned stays intact")
	db.Close()
	sym.Assert(intact(got, want), "a value that was returned stays intact")
}

func forward(o mondis.ProviderScanOption) mondis.ProviderScanOption {
	o.Reverse = false
	return o
}

// many is a store content: n keys of several lengths in a mixed-up order; every third of
// them starts with p.
func many(n int, v []byte) (ks [][]byte, vs [][]byte) {
	for i := 0; i < n; i++ {
		j := (i*7 + 3) % n
		if n%7 == 0 {
			j = i
		}
		k := []byte{"pqp\xff"[j%4], byte(j >> 8), byte(j)}
		if j%5 == 0 {
			k = append(k, 0)
		}
		val := append(clone(v), byte(j), byte(j>>8))
		if j%11 == 0 {
			val = nil
		} else if j%13 == 0 {
			val = append(val, make([]byte, 300)...)
		}
		ks, vs = append(ks, k), append(vs, val)
	}
	return
}

// index finds records by key without comparing each.
func index(ks, vs [][]byte) map[string][]byte {
	m := map[string][]byte{}
	for i, k := range ks {
		m[string(k)] = vs[i]
	}
	return m
}

// whole compares everything a store has with m, by scanning and by reading.
func whole(db mondis.ProviderKVOP, m map[string][]byte, o mondis.ProviderScanOption, what string) {
	var last []byte
	n, want := 0, 0
	for k := range m {
		if bytes.HasPrefix([]byte(k), o.Prefix) && (o.Offset == nil || (bytes.Compare([]byte(k), o.Offset) >= 0) != o.Reverse || k == string(o.Offset)) {
			want++
		}
	}
	err := db.Scan(o, func(key, value []byte, _ mondis.VMetaResp) bool {
		v, ok := m[string(key)]
		sym.Assert(ok && eq(value, v), what+": a scan shows each key with its value")
		sym.Assert(n == 0 || (bytes.Compare(last, key) < 0) != o.Reverse, what+": a scan goes in order")
		sym.Assert(bytes.HasPrefix(key, o.Prefix), what+": a scan shows only keys with the prefix")
		last = clone(key)
		n++
		return true
	})
	sym.Assert(err == nil && n == want, what+": a scan shows every key")
}

// C18_Many: batches and scans of many keys.
//
//sym:opt steps=60000000
func C18_Many() {
	db := openLevel(sym.TempDir("level"))
	n := []int{20, 150, 1100}[sym.Choice("size", 3)]
	ks, vs := many(n, str("v", 1))
	m := index(ks, vs)
	half := n / 2
	old := index(ks[:half], vs[:half])
	wb := db.WriteBatch()
	for i := 0; i < half; i++ {
		sym.Assert(wb.Set(clone(ks[i]), clone(vs[i])) == nil, "a batched set is accepted")
	}
	whole(db, nil, mondis.ProviderScanOption{}, "before the batch commits")
	sym.Assert(wb.Commit() == nil, "a batch commits")
	whole(db, old, mondis.ProviderScanOption{}, "after the batch")
	wb = db.WriteBatch()
	for i := half; i < n; i++ {
		sym.Assert(wb.Delete(clone(ks[i-half])) == nil && wb.Set(clone(ks[i]), clone(vs[i])) == nil, "a batched operation is accepted")
	}
	for i := 0; i < half; i += 2 { // and back
		sym.Assert(wb.Set(clone(ks[i]), clone(vs[i])) == nil, "a batched set is accepted")
	}
	whole(db, old, mondis.ProviderScanOption{}, "before the batch commits")
	if flip("discarded") {
		wb.Discard()
		m = old
		sym.Cover("discarded")
	} else {
		sym.Assert(wb.Commit() == nil, "a batch commits")
		for i := 1; i < half; i += 2 {
			delete(m, string(ks[i]))
		}
	}
	o := mondis.ProviderScanOption{Prefix: [][]byte{nil, []byte("p"), []byte("p\x01"), {0xff}}[sym.Choice("prefix", 4)]}
	if flip("offset") {
		o.Offset = append(clone(o.Prefix), byte(n/3))
	}
	whole(db, m, o, "at the end")
	for _, k := range ks {
		v, there := m[string(k)]
		got, _, err := db.Get(k)
		ok, eerr := db.Exists(k)
		sym.Assert(eerr == nil && ok == there, "exists tells what was set")
		if there {
			sym.Assert(err == nil && eq(got, v), "a get returns what was set")
		} else {
			sym.Assert(err == kv.ErrKeyNotFound, "a missing key is not found")
		}
	}
	db.Close()
	sym.Cover("end")
}
