package hdoc

import (
	"context"
	"errors"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	tutil "github.com/zhiqiangxu/mondis/util"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

var errWork = errors.New("work failed")

// recDB records what is done with the transactions it hands out. Its commits fail as
// the check decides.
type recDB struct {
	mondis.KVDB
	txns []*recTxn
	errs []error // outcome of the commits, in order; nil beyond the end
	nc   int
}

type recTxn struct {
	mondis.ProviderTxn
	db               *recDB
	update           bool
	commits, discard int
	usedAfter        bool
}

func (d *recDB) NewTransaction(update bool) mondis.ProviderTxn {
	t := &recTxn{db: d, update: update}
	d.txns = append(d.txns, t)
	return t
}

func (t *recTxn) Set(k, v []byte, m *mondis.VMetaReq) error {
	if t.commits+t.discard > 0 {
		t.usedAfter = true
	}
	return nil
}

func (t *recTxn) Commit() error {
	if t.commits+t.discard > 0 {
		t.usedAfter = true
	}
	t.commits++
	d := t.db
	d.nc++
	if d.nc-1 < len(d.errs) {
		return d.errs[d.nc-1]
	}
	return nil
}

func (t *recTxn) Discard() { t.discard++ }

func anyErr(name string) error {
	switch sym.Choice(name, 5) {
	case 0:
		return nil
	case 1:
		return errWork
	case 2:
		return kv.ErrTxnTooBig
	case 3:
		return kv.ErrKeyNotFound
	}
	return store.ErrInjected
}

// Every helper, every outcome of the work (error or panic) and of the commit.
func C22_Helpers() {
	db := &recDB{}
	workErr, commitErr := anyErr("work"), anyErr("commit")
	panics := flip("work panics")
	db.errs = []error{commitErr}
	ran, after, cancel := 0, 0, 0
	var err error
	which := sym.Choice("helper", 5)
	commitsAtWork := 0
	f := func(t mondis.ProviderTxn) error {
		ran++
		rt := t.(*recTxn)
		sym.Assert(rt.update == (which != 4), "the transaction is of the kind promised")
		t.Set([]byte("k"), nil, nil)
		commitsAtWork = rt.commits + rt.discard
		if panics {
			panic("work")
		}
		return workErr
	}
	panicked := true
	var committedWhenCalled bool
	func() {
		defer func() {
			if panicked {
				recover()
			}
		}()
		switch which {
		case 0:
			err = tutil.RunInNewUpdateTxn(db, f)
		case 1:
			err = tutil.RunInNewUpdateTxnWithCancel(db, f, func() { cancel++; committedWhenCalled = db.nc == 1 })
		case 2:
			err = tutil.RunInNewUpdateTxnWithCallback(db, f, func() { after++; committedWhenCalled = db.nc == 1 })
		case 3:
			err = tutil.RunInNewUpdateTxnWithCallback(db, f, nil)
		default:
			err = tutil.RunInNewTxn(db, f)
		}
		panicked = false
	}()
	sym.Assert(panicked == panics, "a panic of the work is passed on")
	sym.Assert(ran == 1, "the work runs exactly once")
	sym.Assert(commitsAtWork == 0, "the transaction is open while the work runs")
	sym.Assert(len(db.txns) == 1, "one transaction is used")
	t := db.txns[0]
	sym.Assert(t.discard >= 1 && !t.usedAfter, "the transaction is always discarded")
	commits, wantErr, ok := 0, workErr, false
	if workErr == nil && !panics && which != 4 {
		commits, wantErr, ok = 1, commitErr, commitErr == nil
	}
	sym.Assert(t.commits == commits, "the commit happens exactly once if the work succeeded and never otherwise")
	if panics {
		sym.Cover("panicked")
		sym.Assert(after == 0 && cancel == 0, "no callback runs when the work panics")
		return
	}
	sym.Assert(err == wantErr, "the error of the work or of the commit is returned unchanged")
	wantAfter, wantCancel := 0, 0
	if which == 2 && ok {
		wantAfter = 1
	}
	if which == 1 && commits == 1 && !ok {
		wantCancel = 1
	}
	sym.Assert(after == wantAfter, "the after-commit callback runs exactly once when and only when the commit succeeded")
	sym.Assert(cancel == wantCancel, "the cancel callback runs exactly once when and only when the commit failed")
	if after+cancel > 0 {
		sym.Assert(committedWhenCalled, "callbacks run after the commit")
	}
	sym.Cover("end")
}

// The retry helper against every pattern of too-big, failing and succeeding work and
// commits, up to its bound of tries.
//
//sym:opt secs=100
func C22_TooBig() {
	db := &recDB{}
	first := db.NewTransaction(true).(*recTxn)
	tries := 0
	max := pick(4, 6)
	long := 0
	if flip("many") {
		long = 90 + sym.Choice("how many", 20)
		max = long
	}
	var last error
	var commitErr error
	cur := -1
	f := func(t mondis.ProviderTxn) error {
		cur = len(db.txns) - 1
		sym.Assert(t == mondis.ProviderTxn(db.txns[cur]), "work runs in the newest transaction")
		rt := db.txns[cur]
		sym.Assert(rt.update && rt.commits+rt.discard == 0, "work runs in an open update transaction")
		t.Set([]byte("k"), nil, nil)
		tries++
		if long > 0 {
			last = kv.ErrTxnTooBig
			if tries >= long {
				last = nil
			}
			return last
		}
		if tries >= max {
			last = nil
			return nil
		}
		last = anyErr("work")
		if last == kv.ErrTxnTooBig {
			commitErr = anyErr("commit")
			db.errs = append(db.errs, commitErr)
		}
		return last
	}
	final, err := tutil.TryCommitWhenTxnTooBig(db, first, f)
	n := len(db.txns)
	for i, t := range db.txns {
		sym.Assert(!t.usedAfter, "a finished transaction is not used again")
		if i < n-1 {
			sym.Assert(t.commits == 1, "what did fit is committed")
		}
	}
	sym.Assert(tries <= 100, "retries stay within the bound")
	sym.Assert(final == mondis.ProviderTxn(db.txns[n-1]), "the newest transaction is returned")
	if commitErr != nil {
		sym.Assert(err == commitErr, "a failed commit is returned")
		sym.Cover("commit failed")
		return
	}
	sym.Assert(db.txns[n-1].commits == 0 && db.txns[n-1].discard == 0, "the returned transaction is still open")
	sym.Assert(err == last, "the outcome of the work is returned")
	if last == kv.ErrTxnTooBig {
		sym.Assert(tries == 100, "too big is returned only at the bound")
		sym.Cover("gave up")
	} else {
		sym.Assert(n == tries, "one transaction per try")
	}
	sym.Cover("end")
}

// The helpers on the real store: committed exactly when successful.
func C22_Store() {
	db := store.Open()
	workErr := anyErr("work")
	conflict := flip("conflict")
	f := func(t mondis.ProviderTxn) error {
		_, err := t.Exists([]byte("k"))
		sym.Assert(err == nil, "reading succeeds")
		if err = t.Set([]byte("k"), []byte("v"), nil); err != nil {
			return err
		}
		if conflict {
			sym.Assert(db.Set([]byte("k"), []byte("w"), nil) == nil, "writing succeeds")
		}
		return workErr
	}
	var err error
	ok := false
	which := sym.Choice("helper", 4)
	switch which {
	case 0:
		err = tutil.RunInNewUpdateTxn(db, f)
	case 1:
		ok = true
		err = tutil.RunInNewUpdateTxnWithCancel(db, f, func() { ok = false })
		if workErr != nil {
			ok = false
		}
	case 2:
		err = tutil.RunInNewUpdateTxnWithCallback(db, f, func() { ok = true })
	default:
		err = tutil.RunInNewTxn(db, f)
	}
	good := workErr == nil && !conflict && which != 3
	sym.Assert((err == nil) == good, "success is reported exactly when the work took effect")
	if which == 1 || which == 2 {
		sym.Assert(ok == good, "callbacks agree with the outcome")
	}
	v, _, gerr := db.Get([]byte("k"))
	switch {
	case conflict && which != 3:
		sym.Assert(gerr == nil && string(v) == "w", "a conflicting transaction writes nothing")
	case good:
		sym.Assert(gerr == nil && string(v) == "v", "a committed write is there")
	default:
		sym.Assert(gerr == kv.ErrKeyNotFound, "a failed transaction writes nothing")
	}
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// The helpers of databases and collections of the document store: every outcome of the
// work and of the commit, with and without a schema change in between.
func C22_Documents() {
	db := &recDB{}
	h := schema.NewHandle()
	err := h.Update(context.Background(), schema.NewMetaCache(1, []*model.DBInfo{dbOf(1, "d", map[string]int64{"c": 2})}))
	sym.Assert(err == nil, "updating the schema succeeds")
	d, err := dml.NewDB("d", db, h)
	sym.Assert(err == nil, "opening a database succeeds")
	c, err := d.Collection("c")
	sym.Assert(err == nil, "opening a collection succeeds")
	workErr, commitErr := anyErr("work"), anyErr("commit")
	panics, conflict := flip("work panics"), flip("schema changes")
	db.errs = []error{commitErr}
	ran, cancelled := 0, 0
	which := sym.Choice("helper", 4)
	f := func(t *txn.Txn) error {
		ran++
		rt := t.ProviderTxn.(*recTxn)
		sym.Assert(rt.update == (which%2 == 0), "the transaction is of the kind promised")
		sym.Assert(rt.commits+rt.discard == 0, "the transaction is open while the work runs")
		if which%2 == 0 {
			t.AddCancelFunc(func() { cancelled++ })
			t.Set([]byte("k"), nil, nil)
		}
		t.ReferredCollections(2)
		if conflict {
			apply(h, true, change(2, 2))
		}
		if panics {
			panic("work")
		}
		return workErr
	}
	panicked := true
	func() {
		defer func() {
			if panicked {
				recover()
			}
		}()
		switch which {
		case 0:
			err = d.RunInNewUpdateTxn(f)
		case 1:
			err = d.RunInNewTxn(f)
		case 2:
			err = c.RunInNewUpdateTxn(f)
		default:
			err = c.RunInNewTxn(f)
		}
		panicked = false
	}()
	sym.Assert(panicked == panics, "a panic of the work is passed on")
	sym.Assert(ran == 1 && len(db.txns) == 1, "the work runs exactly once, in one transaction")
	t := db.txns[0]
	sym.Assert(t.discard >= 1 && !t.usedAfter, "the transaction is always discarded")
	commits, wantErr := 0, workErr
	if workErr == nil && !panics && which%2 == 0 {
		if wantErr = txn.ErrDDLConflict; !conflict {
			commits, wantErr = 1, commitErr
		}
	}
	sym.Assert(t.commits == commits, "the commit happens exactly once if the work succeeded and never otherwise")
	if panics {
		sym.Cover("panicked")
		return
	}
	sym.Assert(err == wantErr, "the error of the work or of the commit is returned unchanged")
	sym.Assert(cancelled <= 1, "a cancel callback runs at most once")
	if which%2 == 0 && workErr == nil {
		sym.Assert((cancelled == 1) == (err != nil), "the cancel callback runs exactly when the commit failed")
	}
	// the schema can be changed afterwards
	apply(h, true, change(h.Get().Version()+1, 2))
	sym.Cover("end")
}
