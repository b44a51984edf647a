package hprov

import (
	"bytes"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// expect lists what a scan should visit, in order (store contents without expiries).
func (m ideal) expect(o mondis.ProviderScanOption) []rec {
	var out []rec
	for _, r := range m {
		if !bytes.HasPrefix(r.key, o.Prefix) {
			continue
		}
		if o.Offset != nil {
			c := bytes.Compare(r.key, o.Offset)
			if !o.Reverse && c < 0 || o.Reverse && c > 0 {
				continue
			}
		}
		i := 0
		for i < len(out) && (bytes.Compare(out[i].key, r.key) < 0) != o.Reverse {
			i++
		}
		out = append(out, rec{})
		copy(out[i+1:], out[i:])
		out[i] = r
	}
	return out
}

// options is an arbitrary scan: prefix, an offset inside it or none, a direction.
func options(max int) mondis.ProviderScanOption {
	o := mondis.ProviderScanOption{Reverse: flip("reverse")}
	if n := sym.Choice("prefix.len", max+2); n > 0 {
		o.Prefix = sym.Bytes("prefix", n-1)
	}
	if flip("offset") {
		o.Offset = append(clone(o.Prefix), sym.Bytes("offset", sym.Choice("offset.len", 2))...)
		if len(o.Offset) == 0 {
			o.Offset = nil
		}
	}
	return o
}

// scan compares one scan that stops after some visits with what it should visit.
func (m ideal) scan(s interface {
	Scan(mondis.ProviderScanOption, func(key, value []byte, meta mondis.VMetaResp) bool) error
}, o mondis.ProviderScanOption) {
	want := m.expect(o)
	asked := mondis.ProviderScanOption{Reverse: o.Reverse, Prefix: clone(o.Prefix), Offset: clone(o.Offset)}
	stop := sym.Choice("stop", len(want)+2)
	n := 0
	err := s.Scan(asked, func(key, value []byte, meta mondis.VMetaResp) bool {
		sym.Assert(n < len(want), "a scan visits only live keys with the prefix, from the offset on, each once")
		w := want[n]
		sym.Assert(eq(key, w.key), "a scan visits the keys with the prefix in order, each once")
		sym.Assert(eq(value, w.val), "a scan shows each key's own value")
		sym.Assert(sym.And(meta.Tag == w.tag, meta.ExpiresAt >= w.lo, meta.ExpiresAt <= w.hi), "a scan shows each key's own metadata")
		n++
		sym.Assert(stop == 0 || n <= stop, "a scan goes on only until the caller stops it")
		return n != stop
	})
	sym.Assert(err == nil, "a scan succeeds")
	if stop == 0 || stop > len(want) {
		sym.Assert(n == len(want), "a scan visits every key with the prefix")
		sym.Cover("complete")
	} else {
		sym.Assert(n == stop, "a scan stops when the caller says so")
		sym.Cover("stopped")
	}
	sym.Assert(eq(asked.Prefix, o.Prefix) && eq(asked.Offset, o.Offset), "a scan leaves its options alone")
	if o.Reverse {
		sym.Cover("reverse")
	}
}

// C16_Store: scans outside transactions over arbitrary keys.
//
//sym:opt steps=4000000 secs=90
func C16_Store() {
	db := openBadger(sym.TempDir("badger"))
	var m ideal
	for n := pick(2, 3); n > 0; n-- {
		r := rec{key: str("k", 1, 2), val: str("v", 1), tag: sym.Byte("tag")}
		db.Set(clone(r.key), clone(r.val), &mondis.VMetaReq{Tag: r.tag})
		m = m.with(r)
	}
	m.scan(db, options(pick(1, 2)))
	db.Close()
}

// C16_Edges: the bounds of a prefix range, in particular prefixes that end in 0xff.
//
//sym:opt steps=4000000
func C16_Edges() {
	db := openBadger(sym.TempDir("badger"))
	var m ideal
	p := str("p", 1)
	for _, r := range []rec{{key: p}, {key: append(clone(p), sym.Byte("c"))}, {key: str("k", 1, 2)}, {key: []byte{0xff}}, {key: []byte{0xff, 0xff}}} {
		if flip("there") {
			r.val = []byte("v")
			db.Set(clone(r.key), r.val, nil)
			m = m.with(r)
		}
	}
	o := mondis.ProviderScanOption{Reverse: flip("reverse"), Prefix: p}
	if flip("long prefix") {
		o.Prefix = append(clone(p), 0xff)
	}
	m.scan(db, o)
	db.Close()
}

// C16_Txn: scans inside a transaction see its own writes, deletions and snapshot.
//
//sym:opt steps=4000000 secs=90
func C16_Txn() {
	db := openBadger(sym.TempDir("badger"))
	var m ideal
	put := func(s mondis.CommonKVOP) {
		r := rec{key: str("k", 1, 2), val: str("v", 1), tag: sym.Byte("tag")}
		sym.Assert(s.Set(clone(r.key), clone(r.val), &mondis.VMetaReq{Tag: r.tag}) == nil, "a set succeeds")
		m = m.with(r)
	}
	if pick(0, 1) == 1 {
		put(db)
	}
	put(db)
	t := db.NewTransaction(true)
	switch sym.Choice("own", 3) {
	case 0:
		put(t)
	case 1:
		k := str("k", 1, 2)
		sym.Assert(t.Delete(clone(k)) == nil, "a delete succeeds")
		m = m.without(k)
	case 2: // somebody else's write does not show
		sym.Assert(db.Set(str("k", 1), str("v", 1), nil) == nil, "a set succeeds")
	}
	o := options(1)
	m.scan(t, o)
	if flip("again") {
		m.scan(t, mondis.ProviderScanOption{})
	}
	t.Discard()
	db.Close()
}

// C16_Expired: expired keys are not visited.
func C16_Expired() {
	db := openBadger(sym.TempDir("badger"))
	var m ideal
	for _, k := range []string{"a", "ab", "b"} {
		q := &mondis.VMetaReq{Tag: sym.Byte("tag")}
		r := rec{key: []byte(k), val: str("v", 1), tag: q.Tag}
		short := false
		switch sym.Choice("ttl", 3) {
		case 1:
			q.TTL = 1500 * time.Millisecond
			short = true
		case 2:
			q.TTL = long
		}
		before := time.Now()
		db.Set(r.key, clone(r.val), q)
		r.stamp(q, before, time.Now())
		if !short {
			m = m.with(r)
		}
	}
	time.Sleep(2 * time.Second)
	o := mondis.ProviderScanOption{Reverse: flip("reverse"), Prefix: [][]byte{nil, []byte("a"), []byte("b")}[sym.Choice("prefix", 3)]}
	if flip("in a transaction") {
		t := db.NewTransaction(flip("update"))
		m.scan(t, o)
		t.Discard()
	} else {
		m.scan(db, o)
	}
	db.Close()
}
