// Package mvcc is a small executable model of the transactional ordered store the
// repository runs on (badger v1.6: snapshot reads, own writes visible, conflict
// detection on read keys, sorted iteration with prefix and seek). It is what the
// engine executes in place of the real library.
package mvcc

import (
	"bytes"
	"errors"
	"time"
)

var (
	ErrReadOnly  = errors.New("No sets or deletes are allowed in a read-only transaction")
	ErrDiscarded = errors.New("This transaction has been discarded. Create a new one")
	ErrEmptyKey  = errors.New("Key cannot be empty")
	ErrNotFound  = errors.New("Key not found")
	ErrConflict  = errors.New("Transaction Conflict. Please retry")
	ErrTooBig    = errors.New("Txn is too big to fit into one request")
	ErrTooLong   = errors.New("Key with size exceeded 65000 limit")
	ErrInvalid   = errors.New("Key is using a reserved !badger! prefix")
)

const reserved = "!badger!"

// Ent is one version of one key.
type Ent struct {
	Key, Val []byte
	Del      bool
	Tag      byte
	Exp      uint64
}

type commitRec struct {
	ts   uint64
	keys [][]byte
}

// DB is a store.
type DB struct {
	State   []*Ent
	Ts      uint64
	commits []commitRec
	Closed  bool
	Active  int // transactions not yet discarded
	Commits int
}

// Txn is a transaction.
type Txn struct {
	DB        *DB
	Update    bool
	Discarded bool
	ReadTs    uint64
	snap      []*Ent
	Pend      []*Ent
	reads     [][]byte
	NumIter   int
	Full      bool // no further write fits
	OnEnd     func()
}

func New() *DB { return &DB{} }

func (d *DB) Begin(update bool) *Txn {
	d.Active++
	return &Txn{DB: d, Update: update, ReadTs: d.Ts, snap: d.State}
}

func dead(e *Ent) bool {
	return e.Del || e.Exp != 0 && e.Exp <= uint64(time.Now().Unix())
}

// Dead tells whether e is deleted or expired.
func Dead(e *Ent) bool { return dead(e) }

func find(es []*Ent, key []byte) *Ent {
	for i := len(es) - 1; i >= 0; i-- {
		if bytes.Equal(es[i].Key, key) {
			return es[i]
		}
	}
	return nil
}

// Lookup returns the live entry, or an error.
func (t *Txn) Lookup(key []byte) (*Ent, error) {
	if len(key) == 0 {
		return nil, ErrEmptyKey
	}
	if t.Discarded {
		return nil, ErrDiscarded
	}
	if t.Update {
		if e := find(t.Pend, key); e != nil {
			if dead(e) {
				return nil, ErrNotFound
			}
			return e, nil
		}
		t.addRead(key)
	}
	e := find(t.snap, key)
	if e == nil || dead(e) {
		return nil, ErrNotFound
	}
	return e, nil
}

// IsOwn tells whether e is one of the transaction's own writes.
func (t *Txn) IsOwn(e *Ent) bool {
	for _, p := range t.Pend {
		if p == e {
			return true
		}
	}
	return false
}

func (t *Txn) addRead(key []byte) {
	if t.Update {
		t.reads = append(t.reads, append([]byte(nil), key...))
	}
}

// Modify records a write. The entry keeps referring to the caller's slices.
func (t *Txn) Modify(e *Ent) error {
	switch {
	case !t.Update:
		return ErrReadOnly
	case t.Discarded:
		return ErrDiscarded
	case len(e.Key) == 0:
		return ErrEmptyKey
	case len(e.Key) >= len(reserved) && string(e.Key[:len(reserved)]) == reserved:
		return ErrInvalid
	case len(e.Key) > 65000:
		return ErrTooLong
	case t.Full:
		return ErrTooBig
	}
	for i := range t.Pend {
		if bytes.Equal(t.Pend[i].Key, e.Key) {
			np := append([]*Ent(nil), t.Pend...)
			np[i] = e
			t.Pend = np
			return nil
		}
	}
	t.Pend = append(t.Pend, e)
	return nil
}

// Discard ends the transaction.
func (t *Txn) Discard() {
	if t.Discarded {
		return
	}
	if t.NumIter > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	t.Discarded = true
	t.DB.Active--
	if t.OnEnd != nil {
		t.OnEnd()
	}
}

// Commit applies the writes unless a key read has changed since the start.
func (t *Txn) Commit() error {
	if t.Discarded {
		panic("Trying to commit a discarded txn")
	}
	defer t.Discard()
	if len(t.Pend) == 0 {
		return nil
	}
	for _, c := range t.DB.commits {
		if c.ts <= t.ReadTs {
			continue
		}
		for _, k := range c.keys {
			for _, r := range t.reads {
				if bytes.Equal(k, r) {
					return ErrConflict
				}
			}
		}
	}
	t.DB.apply(t.Pend)
	return nil
}

func (d *DB) apply(pend []*Ent) {
	d.Ts++
	d.Commits++
	rec := commitRec{ts: d.Ts}
	st := append([]*Ent(nil), d.State...)
	for _, e := range pend {
		c := &Ent{Key: append([]byte(nil), e.Key...), Val: append([]byte(nil), e.Val...), Del: e.Del, Tag: e.Tag, Exp: e.Exp}
		rec.keys = append(rec.keys, c.Key)
		at := -1
		for i := range st {
			if bytes.Equal(st[i].Key, c.Key) {
				at = i
				break
			}
		}
		switch {
		case at >= 0 && c.Del:
			st = append(st[:at], st[at+1:]...)
		case at >= 0:
			st[at] = c
		case !c.Del:
			st = append(st, c)
		}
	}
	d.State = st
	d.commits = append(d.commits, rec)
}

// Iter is an iterator over one transaction's view.
type Iter struct {
	txn     *Txn
	Reverse bool
	Prefix  []byte
	list    []*Ent
	pos     int
	closed  bool
}

// NewIter opens an iterator; it is positioned by Seek.
func (t *Txn) NewIter(reverse bool, prefix []byte) *Iter {
	if t.Discarded {
		panic("Transaction has already been discarded")
	}
	t.NumIter++
	if t.NumIter > 1 && t.Update {
		t.NumIter--
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	it := &Iter{txn: t, Reverse: reverse, Prefix: prefix}
	// the view is fixed when the iterator is opened
	var view []*Ent
	if t.Update {
		view = append(view, t.Pend...)
	}
	n := len(view)
	for _, e := range t.snap {
		if find(view[:n], e.Key) == nil {
			view = append(view, e)
		}
	}
	it.list = view
	return it
}

// Seek positions the iterator.
func (it *Iter) Seek(key []byte) {
	if len(key) == 0 {
		key = it.Prefix
	}
	inside := bytes.HasPrefix(key, it.Prefix)
	var out []*Ent
	for _, e := range it.list {
		if dead(e) {
			continue
		}
		if !it.Reverse && inside && !bytes.HasPrefix(e.Key, it.Prefix) {
			continue // sorts before the start or after everything that is returned
		}
		if len(key) > 0 {
			c := bytes.Compare(e.Key, key)
			if !it.Reverse && c < 0 || it.Reverse && c > 0 {
				continue
			}
		}
		lo := 0
		for lo < len(out) {
			c := bytes.Compare(e.Key, out[lo].Key)
			if it.Reverse {
				c = -c
			}
			if c < 0 {
				break
			}
			lo++
		}
		out = append(out, nil)
		copy(out[lo+1:], out[lo:])
		out[lo] = e
	}
	it.list, it.pos = out, 0
}

// Valid tells whether the iterator is at an entry with the prefix.
func (it *Iter) Valid() bool {
	return it.pos < len(it.list) && bytes.HasPrefix(it.list[it.pos].Key, it.Prefix)
}

// ValidFor additionally asks for another prefix.
func (it *Iter) ValidFor(prefix []byte) bool {
	return it.Valid() && bytes.HasPrefix(it.list[it.pos].Key, prefix)
}

// Item is the current entry; reading it counts as a read of its key.
func (it *Iter) Item() *Ent {
	e := it.list[it.pos]
	it.txn.addRead(e.Key)
	return e
}

func (it *Iter) Next() { it.pos++ }

func (it *Iter) Close() {
	if !it.closed {
		it.closed = true
		it.txn.NumIter--
	}
}
