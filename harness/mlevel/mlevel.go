// Package mlevel puts an executable model in place of the API of goleveldb v1.0.0, so
// that the engine can run the repository's LevelDB provider itself. Natively nothing of
// this is used.
package mlevel

import (
	"bytes"
	"errors"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
)

type pair struct{ k, v []byte }

type disk struct {
	pairs []pair // replaced, never changed
	open  bool
}

type state struct {
	d      *disk
	closed bool
	iters  int
}

var (
	disks = map[string]*disk{}
	dbs   = map[*leveldb.DB]*state{}
)

var errLocked = errors.New("resource temporarily unavailable")

//sym:replace github.com/syndtr/goleveldb/leveldb.OpenFile
func openFile(path string, o *opt.Options) (*leveldb.DB, error) {
	d := disks[path]
	if d == nil {
		d = &disk{}
		disks[path] = d
	}
	if d.open {
		return nil, errLocked
	}
	d.open = true
	db := new(leveldb.DB)
	dbs[db] = &state{d: d}
	return db, nil
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Close
func dbClose(db *leveldb.DB) error {
	s := dbs[db]
	if s.closed {
		return leveldb.ErrClosed
	}
	s.closed = true
	s.d.open = false
	return nil
}

func (d *disk) find(key []byte) int {
	for i := range d.pairs {
		if bytes.Equal(d.pairs[i].k, key) {
			return i
		}
	}
	return -1
}

func (d *disk) put(key, val []byte) {
	p := pair{append([]byte{}, key...), append([]byte{}, val...)}
	ps := append([]pair(nil), d.pairs...)
	if i := d.find(key); i >= 0 {
		ps[i] = p
	} else {
		ps = append(ps, p)
	}
	d.pairs = ps
}

func (d *disk) del(key []byte) {
	if i := d.find(key); i >= 0 {
		ps := append([]pair(nil), d.pairs[:i]...)
		d.pairs = append(ps, d.pairs[i+1:]...)
	}
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Put
func dbPut(db *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	s := dbs[db]
	if s.closed {
		return leveldb.ErrClosed
	}
	s.d.put(key, value)
	return nil
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func dbDelete(db *leveldb.DB, key []byte, wo *opt.WriteOptions) error {
	s := dbs[db]
	if s.closed {
		return leveldb.ErrClosed
	}
	s.d.del(key)
	return nil
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Has
func dbHas(db *leveldb.DB, key []byte, ro *opt.ReadOptions) (bool, error) {
	s := dbs[db]
	if s.closed {
		return false, leveldb.ErrClosed
	}
	return s.d.find(key) >= 0, nil
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Get
func dbGet(db *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	s := dbs[db]
	if s.closed {
		return nil, leveldb.ErrClosed
	}
	i := s.d.find(key)
	if i < 0 {
		return nil, leveldb.ErrNotFound
	}
	return append([]byte{}, s.d.pairs[i].v...), nil
}

type applier struct{ d *disk }

func (a applier) Put(key, value []byte) { a.d.put(key, value) }
func (a applier) Delete(key []byte)     { a.d.del(key) }

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Write
func dbWrite(db *leveldb.DB, b *leveldb.Batch, wo *opt.WriteOptions) error {
	s := dbs[db]
	if s.closed {
		return leveldb.ErrClosed
	}
	if b == nil || b.Len() == 0 {
		return nil
	}
	return b.Replay(applier{s.d})
}

//sym:replace (*github.com/syndtr/goleveldb/leveldb.DB).NewIterator
func dbNewIterator(db *leveldb.DB, slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	s := dbs[db]
	if s.closed {
		return iterator.NewEmptyIterator(leveldb.ErrClosed)
	}
	var in []pair
	for _, p := range s.d.pairs {
		if slice != nil && (slice.Start != nil && bytes.Compare(p.k, slice.Start) < 0 || slice.Limit != nil && bytes.Compare(p.k, slice.Limit) >= 0) {
			continue
		}
		i := 0
		for i < len(in) && bytes.Compare(in[i].k, p.k) < 0 {
			i++
		}
		in = append(in, pair{})
		copy(in[i+1:], in[i:])
		in[i] = p
	}
	s.iters++
	return &iter{s: s, in: in, pos: -1}
}

// iter is positioned before the first pair (-1), at one, or behind the last.
type iter struct {
	s        *state
	in       []pair
	pos      int
	k, v     []byte
	released bool
	err      error
}

// leave ends the validity of what Key and Value returned.
func (i *iter) leave() bool {
	for j := range i.k {
		i.k[j] = 0xEE
	}
	for j := range i.v {
		i.v[j] = 0xEE
	}
	i.k, i.v = nil, nil
	if i.released {
		i.err = iterator.ErrIterReleased
	}
	return i.err == nil
}

func (i *iter) at(pos int) bool {
	if !i.leave() {
		return false
	}
	i.pos = pos
	if i.Valid() {
		i.k = append([]byte{}, i.in[pos].k...)
		i.v = append([]byte{}, i.in[pos].v...)
		return true
	}
	return false
}

func (i *iter) Valid() bool { return i.err == nil && !i.released && i.pos >= 0 && i.pos < len(i.in) }
func (i *iter) First() bool { return i.at(0) }
func (i *iter) Last() bool  { return i.at(len(i.in) - 1) }
func (i *iter) Next() bool {
	if i.pos >= len(i.in) {
		return i.at(i.pos)
	}
	return i.at(i.pos + 1)
}
func (i *iter) Prev() bool {
	if i.pos < 0 {
		return i.at(i.pos)
	}
	return i.at(i.pos - 1)
}
func (i *iter) Seek(key []byte) bool {
	n := 0
	for n < len(i.in) && bytes.Compare(i.in[n].k, key) < 0 {
		n++
	}
	return i.at(n)
}
func (i *iter) Key() []byte   { return i.k }
func (i *iter) Value() []byte { return i.v }
func (i *iter) Error() error  { return i.err }
func (i *iter) Release() {
	if !i.released {
		i.leave()
		i.released = true
		i.s.iters--
	}
}
func (i *iter) SetReleaser(util.Releaser) {}

// Iters is the number of iterators not released on the open stores.
func Iters() int {
	n := 0
	for _, s := range dbs {
		if !s.closed {
			n += s.iters
		}
	}
	return n
}
