// Package hprov holds the harnesses of the storage providers (C16 local part, C17, C18).
package hprov

import (
	"bytes"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// str is an arbitrary byte string whose length is one of ls.
func str(n string, ls ...int) []byte { return sym.Bytes(n, ls[sym.Choice(n+".len", len(ls))]) }

func flip(n string) bool { return sym.FixBool(sym.Bool(n)) }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

func same(a, b []byte) bool { return sym.FixBool(eq(a, b)) }

// rec is one live pair of the ideal store. Its expiry, if it has one, is between lo and hi.
type rec struct {
	key, val []byte
	tag      byte
	lo, hi   uint64
}

// ideal is a map from keys to records.
type ideal []rec

func (m ideal) find(k []byte) int {
	for i := range m {
		if same(m[i].key, k) {
			return i
		}
	}
	return -1
}

func (m ideal) without(k []byte) ideal {
	i := m.find(k)
	if i < 0 {
		return m
	}
	out := append(ideal(nil), m[:i]...)
	return append(out, m[i+1:]...)
}

func (m ideal) with(r rec) ideal { return append(append(ideal(nil), m.without(r.key)...), r) }

// expired tells whether r is certainly expired, and whether that is certain.
func (r rec) expired(before, after int64) (dead, sure bool) {
	if r.hi == 0 {
		return false, true
	}
	if uint64(after) < r.lo {
		return false, true
	}
	if r.hi <= uint64(before) {
		return true, true
	}
	return false, false
}

// reader is what a store and a transaction have in common.
type reader interface {
	Exists(k []byte) (bool, error)
	Get(k []byte) ([]byte, mondis.VMetaResp, error)
}

// check compares one key with the ideal store.
func (m ideal) check(r reader, k []byte, what string) {
	before := time.Now().Unix()
	v, meta, err := r.Get(k)
	ok, err2 := r.Exists(k)
	after := time.Now().Unix()
	sym.Assert(err2 == nil, what+": exists does not fail")
	sym.Assert(err == nil || err == kv.ErrKeyNotFound, what+": get reports an absent key as not found, and nothing else")
	i := m.find(k)
	if i < 0 {
		sym.Assert(err == kv.ErrKeyNotFound, what+": a key that was not set, or was deleted, is not found")
		sym.Assert(!ok, what+": a key that was not set, or was deleted, does not exist")
		sym.Assert(v == nil, what+": no value comes with not found")
		return
	}
	dead, sure := m[i].expired(before, after)
	if !sure {
		return
	}
	if dead {
		sym.Assert(err == kv.ErrKeyNotFound, what+": an expired key is not found")
		sym.Assert(!ok, what+": an expired key does not exist")
		return
	}
	sym.Assert(err == nil, what+": a key that was set is found")
	sym.Assert(ok, what+": a key that was set exists")
	sym.Assert(eq(v, m[i].val), what+": the value is the one last set")
	sym.Assert(meta.Tag == m[i].tag, what+": the tag is the one last set")
	sym.Assert(meta.ExpiresAt >= m[i].lo && meta.ExpiresAt <= m[i].hi, what+": the expiry is the one asked for")
}

// meta is arbitrary metadata for a set; the record gets what it implies.
func meta(n string, r *rec) *mondis.VMetaReq {
	q := &mondis.VMetaReq{}
	switch sym.Choice(n, 5) {
	case 0:
		return nil
	case 1:
		q.Tag = sym.Byte(n + ".tag")
	case 2:
		q.TTL = long
		q.Tag = sym.Byte(n + ".tag")
	case 3:
		q.TTL = 1500 * time.Millisecond
	case 4:
	}
	r.tag = q.Tag
	return q
}

// long is a time-to-live that does not end during the run, and whose end does not fit in 32
// bits of seconds.
const long = 200*365*24*time.Hour + 3700*time.Millisecond

// stamp notes the bounds of the expiry of r, set between two times with q.
func (r *rec) stamp(q *mondis.VMetaReq, before, after time.Time) {
	if q == nil || q.TTL == 0 {
		return
	}
	r.lo, r.hi = uint64(before.Add(q.TTL).Unix()), uint64(after.Add(q.TTL).Unix())
}

func openBadger(dir string) mondis.KVDB {
	b := provider.NewBadger()
	err := b.Open(mondis.KVOption{Dir: dir})
	sym.Assert(err == nil, "the store opens")
	return b
}

// hasPrefix forks.
func hasPrefix(a, p []byte) bool { return bytes.HasPrefix(a, p) }
