// Package store gives harnesses a mondis.KVDB: under the engine an executable model
// of the store, natively the repository's own badger provider in a scratch directory.
// Both are wrapped so that calls can be made to fail and so that scan callbacks see
// the documented lifetime of their arguments.
package store

import (
	"errors"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// ErrInjected is what a failing storage call returns.
var ErrInjected = errors.New("injected storage failure")

// Faults decides which calls fail.
type Faults struct {
	Left                          int  // failures still allowed
	Hit                           int  // failures injected
	Armed                         bool // whether calls may fail now
	Calls                         int
	Reads, Writes, Commits, Scans bool
	Err                           error // what failing calls return instead of ErrInjected

	skip, run    int // outage: calls that still succeed, calls that fail after them
	broken, hung bool
	fuse         int
	dead         chan struct{}

	then int // calls until what happens
	what func()
}

// gone stops a call of a process that has died.
func (f *Faults) gone() {
	sym.Yield("store")
	if f.then > 0 {
		f.then--
		if f.then == 0 {
			f.what()
		}
	}
	if f.fuse > 0 {
		f.fuse--
		if f.fuse == 0 {
			f.hung = true
			close(f.dead)
		}
	}
	if f.hung {
		select {}
	}
}

func (f *Faults) fail(kind *bool) bool {
	if f == nil {
		return false
	}
	f.gone()
	if f.broken {
		return true
	}
	if f.run > 0 {
		if f.skip > 0 {
			f.skip--
		} else {
			f.run--
			return true
		}
	}
	if !f.Armed || f.Left <= 0 || !*kind {
		return false
	}
	f.Calls++
	if sym.FixBool(sym.Bool("storage call fails")) {
		f.Left--
		f.Hit++
		return true
	}
	return false
}

func (f *Faults) err() error {
	if f.Err != nil {
		return f.Err
	}
	return ErrInjected
}

// DB is the wrapped store.
type DB struct {
	Inner mondis.KVDB
	F     *Faults
	Open_ int // transactions begun and not discarded or committed
}

// Break makes every later call fail, Hang makes every later call block for ever.
func (d *DB) Break() { d.F.broken = true }
func (d *DB) Hang()  { d.F.hung = true }

// Outage makes n calls fail after skip more calls.
func (d *DB) Outage(skip, n int) { d.F.skip, d.F.run = skip, n }

// Before makes something happen before the n-th call from now.
func (d *DB) Before(n int, what func()) { d.F.then, d.F.what = n, what }

// HangAt makes the n-th call from now, and all later ones, block for ever; Dead is
// closed when that happens.
func (d *DB) HangAt(n int) (dead chan struct{}) {
	d.F.fuse = n + 1
	d.F.dead = make(chan struct{})
	return d.F.dead
}

// Open opens a fresh store.
func Open() *DB { return &DB{Inner: open(sym.TempDir("db")), F: &Faults{}} }

// At opens the store in dir.
func At(dir string) *DB { return &DB{Inner: open(dir), F: &Faults{}} }

// All makes every kind of call subject to failure, n times at most.
func (d *DB) All(n int) {
	f := d.F
	f.Left, f.Hit, f.Calls, f.Armed = n, 0, 0, true
	f.Reads, f.Writes, f.Commits, f.Scans = true, true, true, true
}

// Off stops failures and reports how many were injected.
func (d *DB) Off() int { d.F.Armed = false; return d.F.Hit }

func (d *DB) Open(o mondis.KVOption) error { return d.Inner.Open(o) }
func (d *DB) Close() error                 { return d.Inner.Close() }

func (d *DB) NewTransaction(update bool) mondis.ProviderTxn {
	d.F.gone()
	d.Open_++
	return &Txn{inner: d.Inner.NewTransaction(update), d: d}
}

func (d *DB) Set(k, v []byte, m *mondis.VMetaReq) error {
	if d.F.fail(&d.F.Writes) {
		return d.F.err()
	}
	return d.Inner.Set(k, v, m)
}
func (d *DB) Exists(k []byte) (bool, error) {
	if d.F.fail(&d.F.Reads) {
		return false, d.F.err()
	}
	return d.Inner.Exists(k)
}
func (d *DB) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	if d.F.fail(&d.F.Reads) {
		return nil, mondis.VMetaResp{}, d.F.err()
	}
	return d.Inner.Get(k)
}
func (d *DB) Delete(k []byte) error {
	if d.F.fail(&d.F.Writes) {
		return d.F.err()
	}
	return d.Inner.Delete(k)
}
func (d *DB) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	return scan(d.F, o, fn, d.Inner.Scan)
}
func (d *DB) WriteBatch() mondis.ProviderWriteBatch { return d.Inner.WriteBatch() }

// scan hands out copies that are overwritten when the next entry is visited (badger
// reuses the memory of the entries it has visited), and can fail at the start or
// between entries.
func scan(f *Faults, o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool,
	inner func(mondis.ProviderScanOption, func(key, value []byte, meta mondis.VMetaResp) bool) error) error {
	if f.fail(&f.Scans) {
		return ErrInjected
	}
	failed := false
	var k, v []byte
	err := inner(o, func(key, value []byte, meta mondis.VMetaResp) bool {
		for i := range k {
			k[i] = 0xEE
		}
		for i := range v {
			v[i] = 0xEE
		}
		k = append([]byte{}, key...)
		v = append([]byte{}, value...)
		r := fn(k, v, meta)
		if r && f.fail(&f.Scans) {
			failed = true
			return false
		}
		return r
	})
	if failed {
		return ErrInjected
	}
	return err
}

// Txn is the wrapped transaction.
type Txn struct {
	inner mondis.ProviderTxn
	d     *DB
	ended bool
}

func (t *Txn) Set(k, v []byte, m *mondis.VMetaReq) error {
	if t.d.F.fail(&t.d.F.Writes) {
		return t.d.F.err()
	}
	return t.inner.Set(k, v, m)
}
func (t *Txn) Exists(k []byte) (bool, error) {
	if t.d.F.fail(&t.d.F.Reads) {
		return false, t.d.F.err()
	}
	return t.inner.Exists(k)
}
func (t *Txn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	if t.d.F.fail(&t.d.F.Reads) {
		return nil, mondis.VMetaResp{}, t.d.F.err()
	}
	return t.inner.Get(k)
}
func (t *Txn) Delete(k []byte) error {
	if t.d.F.fail(&t.d.F.Writes) {
		return t.d.F.err()
	}
	return t.inner.Delete(k)
}
func (t *Txn) Scan(o mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	return scan(t.d.F, o, fn, t.inner.Scan)
}
func (t *Txn) StartTS() uint64 { return t.inner.StartTS() }
func (t *Txn) end() {
	if !t.ended {
		t.ended = true
		t.d.Open_--
	}
}
func (t *Txn) Commit() error {
	if t.d.F.fail(&t.d.F.Commits) {
		t.end()
		t.inner.Discard()
		return t.d.F.err()
	}
	t.end()
	err := t.inner.Commit()
	sym.Yield("committed")
	return err
}
func (t *Txn) Discard() {
	t.end()
	t.inner.Discard()
}

// Ent is one stored pair.
type Ent struct{ Key, Val []byte }

// Dump returns everything stored, unordered, as of now.
func (d *DB) Dump() []Ent { return dump(d.Inner) }

// Has looks a raw key up.
func Has(es []Ent, key []byte) (val []byte, ok bool) {
	for _, e := range es {
		if string(e.Key) == string(key) {
			return e.Val, true
		}
	}
	return nil, false
}
