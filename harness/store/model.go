//go:build !symnative

package store

import (
	"errors"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/mvcc"
)

var dirs = map[string]*mvcc.DB{}

func open(dir string) mondis.KVDB {
	m := &mem{}
	if m.Open(mondis.KVOption{Dir: dir}) != nil {
		panic("open")
	}
	return m
}

type mem struct{ db *mvcc.DB }

var errLocked = errors.New("Cannot acquire directory lock")

func (m *mem) Open(o mondis.KVOption) error {
	d := dirs[o.Dir]
	if d == nil {
		d = mvcc.New()
		dirs[o.Dir] = d
	} else if !d.Closed {
		return errLocked
	}
	d.Closed = false
	m.db = d
	return nil
}

func (m *mem) Close() error {
	if m.db != nil {
		m.db.Closed = true
	}
	return nil
}
func (m *mem) NewTransaction(update bool) mondis.ProviderTxn {
	return &memTxn{m.db.Begin(update)}
}
func (m *mem) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
	t := m.NewTransaction(true)
	defer t.Discard()
	if err = t.Set(k, v, meta); err != nil {
		return
	}
	return t.Commit()
}
func (m *mem) Exists(k []byte) (bool, error) {
	t := m.NewTransaction(false)
	defer t.Discard()
	return t.Exists(k)
}
func (m *mem) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	t := m.NewTransaction(false)
	defer t.Discard()
	return t.Get(k)
}
func (m *mem) Delete(k []byte) (err error) {
	t := m.NewTransaction(true)
	defer t.Discard()
	if err = t.Delete(k); err != nil {
		return
	}
	return t.Commit()
}
func (m *mem) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	t := m.NewTransaction(false)
	defer t.Discard()
	return t.Scan(o, fn)
}
func (m *mem) WriteBatch() mondis.ProviderWriteBatch { return &memWB{m.db.Begin(true)} }

type memWB struct{ t *mvcc.Txn }

func (w *memWB) Set(k, v []byte) error   { return w.t.Modify(&mvcc.Ent{Key: k, Val: v}) }
func (w *memWB) Delete(key []byte) error { return w.t.Modify(&mvcc.Ent{Key: key, Del: true}) }
func (w *memWB) Commit() error           { return w.t.Commit() }
func (w *memWB) Discard()                { w.t.Discard() }

type memTxn struct{ t *mvcc.Txn }

func (t *memTxn) Set(k, v []byte, meta *mondis.VMetaReq) error {
	e := &mvcc.Ent{Key: k, Val: v}
	if meta != nil {
		e.Tag = meta.Tag
		if meta.TTL != 0 {
			e.Exp = uint64(time.Now().Add(meta.TTL).Unix())
		}
	}
	return t.t.Modify(e)
}
func (t *memTxn) Exists(k []byte) (bool, error) {
	_, err := t.t.Lookup(k)
	if err == mvcc.ErrNotFound {
		return false, nil
	}
	return err == nil, err
}
func (t *memTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	e, err := t.t.Lookup(k)
	if err == mvcc.ErrNotFound {
		err = kv.ErrKeyNotFound
	}
	if err != nil {
		return nil, mondis.VMetaResp{}, err
	}
	return append([]byte(nil), e.Val...), mondis.VMetaResp{ExpiresAt: e.Exp, Tag: e.Tag}, nil
}
func (t *memTxn) Delete(k []byte) error { return t.t.Modify(&mvcc.Ent{Key: k, Del: true}) }
func (t *memTxn) StartTS() uint64       { return t.t.ReadTs }
func (t *memTxn) Commit() error         { return t.t.Commit() }
func (t *memTxn) Discard()              { t.t.Discard() }
func (t *memTxn) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	p := o.Prefix
	if o.Reverse && len(p) > 0 && len(o.Offset) == 0 {
		p = nil // from the end of the prefix range
	}
	it := t.t.NewIter(o.Reverse, p)
	defer it.Close()
	it.Seek(o.Offset)
	for p == nil && len(o.Prefix) > 0 && it.Valid() && !it.ValidFor(o.Prefix) {
		it.Next()
	}
	for ; it.ValidFor(o.Prefix); it.Next() {
		e := it.Item()
		if !fn(e.Key, e.Val, mondis.VMetaResp{ExpiresAt: e.Exp, Tag: e.Tag}) {
			break
		}
	}
	return nil
}

// dump reads the whole store without sorting it.
func dump(k mondis.KVDB) []Ent {
	var out []Ent
	for _, e := range k.(*mem).db.State {
		out = append(out, Ent{e.Key, e.Val})
	}
	return out
}
