// Package mbadger puts the executable store model (package mvcc) in place of the API of
// badger v1.6.0, so that the engine can run the repository's badger provider itself.
// Natively nothing of this is used: the provider runs on the real badger.
package mbadger

import (
	"errors"
	"fmt"

	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis/zzverif/mvcc"
)

type itemState struct {
	e        *mvcc.Ent
	key, val []byte
	own      bool // val is the slice of the transaction's own write
}

type iterState struct {
	it  *mvcc.Iter
	cur *badger.Item
}

type txnState struct {
	t     *mvcc.Txn
	items []*badger.Item
}

type wbState struct {
	t   *mvcc.Txn
	db  *mvcc.DB
	err error
}

var (
	dirs  = map[string]*mvcc.DB{}
	dbs   = map[*badger.DB]*mvcc.DB{}
	txns  = map[*badger.Txn]*txnState{}
	items = map[*badger.Item]*itemState{}
	iters = map[*badger.Iterator]*iterState{}
	wbs   = map[*badger.WriteBatch]*wbState{}
)

var errLocked = errors.New("Cannot acquire directory lock")

func mapped(err error) error {
	switch err {
	case mvcc.ErrReadOnly:
		return badger.ErrReadOnlyTxn
	case mvcc.ErrDiscarded:
		return badger.ErrDiscardedTxn
	case mvcc.ErrEmptyKey:
		return badger.ErrEmptyKey
	case mvcc.ErrNotFound:
		return badger.ErrKeyNotFound
	case mvcc.ErrConflict:
		return badger.ErrConflict
	case mvcc.ErrTooBig:
		return badger.ErrTxnTooBig
	case mvcc.ErrInvalid:
		return badger.ErrInvalidKey
	}
	return err
}

// Fill makes a transaction refuse every further write as too big.
func Fill(t *badger.Txn) { txns[t].t.Full = true }

// Active is the number of transactions not yet ended on the store in dir.
func Active(dir string) int { return dirs[dir].Active }

//sym:replace github.com/dgraph-io/badger.Open
func Open(opt badger.Options) (*badger.DB, error) {
	d := dirs[opt.Dir]
	if d == nil {
		d = mvcc.New()
		dirs[opt.Dir] = d
	} else if !d.Closed {
		return nil, errLocked
	}
	d.Closed = false
	db := new(badger.DB)
	dbs[db] = d
	return db, nil
}

//sym:replace (*github.com/dgraph-io/badger.DB).Close
func dbClose(db *badger.DB) error {
	dbs[db].Closed = true
	for _, st := range items {
		clobber(st)
	}
	return nil
}

//sym:replace (*github.com/dgraph-io/badger.DB).NewTransaction
func dbNewTransaction(db *badger.DB, update bool) *badger.Txn {
	t := new(badger.Txn)
	st := &txnState{t: dbs[db].Begin(update)}
	// what was read is valid until the transaction ends
	st.t.OnEnd = func() {
		for _, i := range st.items {
			clobber(items[i])
		}
	}
	txns[t] = st
	return t
}

//sym:replace (*github.com/dgraph-io/badger.Txn).Get
func txnGet(t *badger.Txn, key []byte) (*badger.Item, error) {
	st := txns[t]
	e, err := st.t.Lookup(key)
	if err != nil {
		return nil, mapped(err)
	}
	own := st.t.IsOwn(e)
	i := st.newItem(e, own)
	if own {
		items[i].key = key
	}
	return i, nil
}

func (st *txnState) newItem(e *mvcc.Ent, own bool) *badger.Item {
	i := new(badger.Item)
	is := &itemState{e: e, key: append([]byte(nil), e.Key...), own: own}
	if own {
		is.val = e.Val
	} else {
		is.val = append([]byte(nil), e.Val...)
	}
	items[i] = is
	st.items = append(st.items, i)
	return i
}

func clobber(is *itemState) {
	if is.own {
		return
	}
	for j := range is.key {
		is.key[j] = 0xEE
	}
	for j := range is.val {
		is.val[j] = 0xEE
	}
}

//sym:replace (*github.com/dgraph-io/badger.Txn).Set
func txnSet(t *badger.Txn, key, val []byte) error {
	return mapped(txns[t].t.Modify(&mvcc.Ent{Key: key, Val: val}))
}

//sym:replace (*github.com/dgraph-io/badger.Txn).SetEntry
func txnSetEntry(t *badger.Txn, e *badger.Entry) error {
	return mapped(txns[t].t.Modify(&mvcc.Ent{Key: e.Key, Val: e.Value, Tag: e.UserMeta, Exp: e.ExpiresAt}))
}

//sym:replace (*github.com/dgraph-io/badger.Txn).Delete
func txnDelete(t *badger.Txn, key []byte) error {
	return mapped(txns[t].t.Modify(&mvcc.Ent{Key: key, Del: true}))
}

//sym:replace (*github.com/dgraph-io/badger.Txn).Commit
func txnCommit(t *badger.Txn) error { return mapped(txns[t].t.Commit()) }

//sym:replace (*github.com/dgraph-io/badger.Txn).CommitWith
func txnCommitWith(t *badger.Txn, cb func(error)) {
	if cb == nil {
		panic("Nil callback provided to CommitWith")
	}
	err := txnCommit(t)
	go cb(err)
}

//sym:replace (*github.com/dgraph-io/badger.Txn).Discard
func txnDiscard(t *badger.Txn) { txns[t].t.Discard() }

//sym:replace (*github.com/dgraph-io/badger.Txn).ReadTs
func txnReadTs(t *badger.Txn) uint64 { return txns[t].t.ReadTs }

//sym:replace (*github.com/dgraph-io/badger.Txn).NewIterator
func txnNewIterator(t *badger.Txn, opt badger.IteratorOptions) *badger.Iterator {
	if opt.AllVersions || opt.InternalAccess {
		panic(fmt.Sprint("not modelled: AllVersions/InternalAccess"))
	}
	it := new(badger.Iterator)
	iters[it] = &iterState{it: txns[t].t.NewIter(opt.Reverse, opt.Prefix)}
	itemTxn[it] = txns[t]
	return it
}

var itemTxn = map[*badger.Iterator]*txnState{}

//sym:replace (*github.com/dgraph-io/badger.Txn).NewKeyIterator
func txnNewKeyIterator(t *badger.Txn, key []byte, opt badger.IteratorOptions) *badger.Iterator {
	if len(opt.Prefix) > 0 {
		panic("opt.Prefix should be nil for NewKeyIterator.")
	}
	opt.Prefix = key
	return txnNewIterator(t, opt)
}

func (s *iterState) leave() {
	if s.cur != nil {
		clobber(items[s.cur])
		s.cur = nil
	}
}

//sym:replace (*github.com/dgraph-io/badger.Iterator).Seek
func iterSeek(it *badger.Iterator, key []byte) {
	s := iters[it]
	s.leave()
	s.it.Seek(key)
}

//sym:replace (*github.com/dgraph-io/badger.Iterator).Rewind
func iterRewind(it *badger.Iterator) { iterSeek(it, nil) }

//sym:replace (*github.com/dgraph-io/badger.Iterator).Valid
func iterValid(it *badger.Iterator) bool { return iters[it].it.Valid() }

//sym:replace (*github.com/dgraph-io/badger.Iterator).ValidForPrefix
func iterValidForPrefix(it *badger.Iterator, prefix []byte) bool {
	return iters[it].it.ValidFor(prefix)
}

//sym:replace (*github.com/dgraph-io/badger.Iterator).Next
func iterNext(it *badger.Iterator) {
	s := iters[it]
	s.leave()
	s.it.Next()
}

//sym:replace (*github.com/dgraph-io/badger.Iterator).Item
func iterItem(it *badger.Iterator) *badger.Item {
	s := iters[it]
	e := s.it.Item()
	if s.cur == nil {
		s.cur = itemTxn[it].newItem(e, false)
	}
	return s.cur
}

//sym:replace (*github.com/dgraph-io/badger.Iterator).Close
func iterClose(it *badger.Iterator) {
	s := iters[it]
	s.leave()
	s.it.Close()
}

//sym:replace (*github.com/dgraph-io/badger.Item).Key
func itemKey(i *badger.Item) []byte { return items[i].key }

//sym:replace (*github.com/dgraph-io/badger.Item).KeyCopy
func itemKeyCopy(i *badger.Item, dst []byte) []byte { return append(dst[:0], items[i].key...) }

//sym:replace (*github.com/dgraph-io/badger.Item).KeySize
func itemKeySize(i *badger.Item) int64 { return int64(len(items[i].key)) }

//sym:replace (*github.com/dgraph-io/badger.Item).ValueSize
func itemValueSize(i *badger.Item) int64 { return int64(len(items[i].val)) }

//sym:replace (*github.com/dgraph-io/badger.Item).Value
func itemValue(i *badger.Item, fn func(val []byte) error) error {
	if fn == nil {
		return nil
	}
	return fn(items[i].val)
}

//sym:replace (*github.com/dgraph-io/badger.Item).ValueCopy
func itemValueCopy(i *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], items[i].val...), nil
}

//sym:replace (*github.com/dgraph-io/badger.Item).UserMeta
func itemUserMeta(i *badger.Item) byte { return items[i].e.Tag }

//sym:replace (*github.com/dgraph-io/badger.Item).ExpiresAt
func itemExpiresAt(i *badger.Item) uint64 { return items[i].e.Exp }

//sym:replace (*github.com/dgraph-io/badger.Item).IsDeletedOrExpired
func itemIsDeletedOrExpired(i *badger.Item) bool { return mvcc.Dead(items[i].e) }

//sym:replace (*github.com/dgraph-io/badger.DB).NewWriteBatch
func dbNewWriteBatch(db *badger.DB) *badger.WriteBatch {
	wb := new(badger.WriteBatch)
	wbs[wb] = &wbState{t: dbs[db].Begin(true), db: dbs[db]}
	return wb
}

func (w *wbState) modify(e *mvcc.Ent) error {
	if w.err != nil {
		return w.err
	}
	err := w.t.Modify(e)
	if err != mvcc.ErrTooBig {
		return mapped(err)
	}
	// what has been written so far is committed
	if w.err = w.t.Commit(); w.err != nil {
		return mapped(w.err)
	}
	w.t = w.db.Begin(true)
	if err = w.t.Modify(e); err != nil {
		w.err = err
	}
	return mapped(err)
}

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).Set
func wbSet(wb *badger.WriteBatch, k, v []byte) error {
	return wbs[wb].modify(&mvcc.Ent{Key: k, Val: v})
}

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).SetEntry
func wbSetEntry(wb *badger.WriteBatch, e *badger.Entry) error {
	return wbs[wb].modify(&mvcc.Ent{Key: e.Key, Val: e.Value, Tag: e.UserMeta, Exp: e.ExpiresAt})
}

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).Delete
func wbDelete(wb *badger.WriteBatch, k []byte) error {
	return wbs[wb].modify(&mvcc.Ent{Key: k, Del: true})
}

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).Flush
func wbFlush(wb *badger.WriteBatch) error {
	w := wbs[wb]
	if w.err == nil && !w.t.Discarded {
		w.err = w.t.Commit()
	}
	w.t.Discard()
	return mapped(w.err)
}

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).Cancel
func wbCancel(wb *badger.WriteBatch) { wbs[wb].t.Discard() }

//sym:replace (*github.com/dgraph-io/badger.WriteBatch).Error
func wbError(wb *badger.WriteBatch) error { return mapped(wbs[wb].err) }
