package hdoc

import (
	"context"
	"encoding/json"

	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// change is a recorded schema change touching the given collections.
func change(version int64, cids ...int64) *model.SchemaDiff {
	name := string([]byte{'D', byte('a' + version/26), byte('a' + version%26)})
	raw, err := json.Marshal(dbOf(1000+version, name, nil))
	sym.Assert(err == nil, "encoding succeeds")
	return &model.SchemaDiff{Version: version, Type: model.ActionCreateSchema, CollectionIDs: cids, RawArg: raw}
}

// apply makes the changes current, in one go or one by one.
func apply(h *schema.Handle, oneByOne bool, ds ...*model.SchemaDiff) {
	step := len(ds)
	if oneByOne {
		step = 1
	}
	for i := 0; i < len(ds); i += step {
		c := h.Get().Clone()
		err := c.ApplyDiffs(ds[i : i+step])
		sym.Assert(err == nil, "applying consecutive changes succeeds")
		err = h.Update(context.Background(), c)
		sym.Assert(err == nil, "updating the schema succeeds")
	}
}

func isCurrent(h *schema.Handle, version int64) {
	sym.Assert(h.Get().Version() == version, "the schema advanced")
}

// A transaction that starts after some changes and commits after others, with arbitrary
// collections touched by each change and used by the transaction. The schema stays
// usable whatever the outcome.
//
//sym:opt secs=60
func C24_Commit() {
	db := store.Open()
	h := schema.NewHandle()
	err := h.Update(context.Background(), schema.NewMetaCache(int64(sym.Byte("first")), nil))
	sym.Assert(err == nil, "updating the schema succeeds")
	v0 := h.Get().Version()
	cid := func(n string) int64 { return int64(sym.Byte(n)) }
	one := flip("one by one")
	var before, after []*model.SchemaDiff
	v := v0
	for i := sym.Choice("changes before", 3); i > 0; i-- {
		v++
		before = append(before, change(v, cid("b")))
	}
	var touched []int64
	for i := sym.Choice("changes after", pick(3, 4)); i > 0; i-- {
		v++
		var t []int64
		for j := sym.Choice("collections", 3); j > 0; j-- {
			t = append(t, cid("a"))
		}
		touched = append(touched, t...)
		after = append(after, change(v, t...))
	}
	if len(before) > 0 {
		apply(h, one, before...)
	}
	t := txn.NewTxn(h, true, db)
	cancelled := 0
	t.AddCancelFunc(func() { cancelled++ })
	var used []int64
	for i := sym.Choice("used", 3); i > 0; i-- {
		used = append(used, cid("u"))
		t.ReferredCollections(used[len(used)-1])
	}
	sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	if len(after) > 0 {
		apply(h, one, after...)
	}
	hit := false
	for _, u := range used {
		for _, x := range touched {
			hit = sym.Or(hit, u == x)
		}
	}
	hit = sym.FixBool(hit)
	err = t.Commit()
	if hit && one {
		sym.Assert(t.Commit() != nil && cancelled == 1, "a refused commit stays refused and cancels nothing twice")
	}
	t.Discard()
	_, _, gerr := db.Get([]byte("k"))
	if hit {
		sym.Assert(err == txn.ErrDDLConflict, "a commit that straddles a change of its collections fails with the conflict error")
		sym.Assert(gerr != nil, "a refused commit writes nothing")
		sym.Assert(cancelled == 1, "a refused commit runs its cancel actions once")
		sym.Cover("conflict")
	} else {
		sym.Assert(err == nil, "changes of other collections do not make a commit fail")
		sym.Assert(gerr == nil && cancelled == 0, "a successful commit writes and cancels nothing")
		sym.Cover("committed")
	}
	// nothing is left locked
	apply(h, true, change(v+1, 1))
	isCurrent(h, v+1)
	t = txn.NewTxn(h, true, db)
	t.ReferredCollections(used...)
	sym.Assert(t.Set([]byte("l"), []byte("v"), nil) == nil, "writing succeeds")
	sym.Assert(t.Commit() == nil, "a later transaction commits")
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Long histories: as far back as the retained history reaches the decision is exact,
// further back the commit is refused.
//
//sym:opt secs=60 steps=60000000
func C24_History() {
	db := store.Open()
	h := schema.NewHandle()
	sym.Assert(h.Update(context.Background(), schema.NewMetaCache(7, nil)) == nil, "updating the schema succeeds")
	total := []int{130, 270, 520}[sym.Choice("total", 3)]
	starts := []int{0, 1, 3, total - 102, total - 101, total - 100, total - 99, total - 98, total - 53, total - 1, total}
	start := starts[sym.Choice("start", len(starts))]
	u := int64(sym.Uint16("used"))
	if total > 130 {
		sym.Assume(sym.Or(u == 0, u == int64(499+start), u == int64(500+start), u == int64(499+total)))
	}
	var t *txn.Txn
	for i := 0; i <= total; i++ {
		if i == start {
			t = txn.NewTxn(h, true, db)
			t.ReferredCollections(u)
			sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
		}
		if i < total {
			apply(h, true, change(int64(8+i), int64(500+i)))
		}
	}
	err := t.Commit()
	t.Discard()
	missed := total - start
	hit := sym.FixBool(sym.And(u >= int64(500+start), u < int64(500+total)))
	switch {
	case missed > 100:
		sym.Assert(err == txn.ErrDDLConflict, "a commit further back than the history is refused")
		sym.Cover("too old")
	case hit:
		sym.Assert(err == txn.ErrDDLConflict, "a commit that straddles a change of its collections fails with the conflict error")
		sym.Cover("conflict")
	default:
		sym.Assert(err == nil, "changes of other collections do not make a commit fail")
		sym.Cover("committed")
	}
}

// A transaction begun before the first schema was loaded, after a reload from scratch,
// and read-only transactions.
func C24_Reload() {
	db := store.Open()
	h := schema.NewHandle()
	early := flip("before the first schema")
	if !early {
		sym.Assert(h.Update(context.Background(), schema.NewMetaCache(3, nil)) == nil, "updating the schema succeeds")
	}
	update := flip("update")
	t := txn.NewTxn(h, update, db)
	cancelled := 0
	if update {
		t.AddCancelFunc(func() { cancelled++ })
		t.ReferredCollections(int64(sym.Byte("used")))
		sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	}
	changed := flip("reloaded")
	if changed {
		sym.Assert(h.Update(context.Background(), schema.NewMetaCache(9, nil)) == nil, "updating the schema succeeds")
	}
	err := t.Commit()
	t.Discard()
	_, _, gerr := db.Get([]byte("k"))
	if changed && update {
		sym.Assert(err == txn.ErrDDLConflict && cancelled == 1 && gerr != nil, "a commit across an unknown change is refused")
		sym.Cover("refused")
	} else {
		sym.Assert(err == nil && cancelled == 0, "a commit without a change in between succeeds")
		sym.Assert((gerr == nil) == update, "a successful commit writes")
		sym.Cover("committed")
	}
	sym.Assert(h.Update(context.Background(), schema.NewMetaCache(10, nil)) == nil, "updating the schema succeeds")
	isCurrent(h, 10)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
}

// A failing or conflicting store commit is reported and runs the cancel actions once.
func C24_Fault() {
	db := store.Open()
	h := schema.NewHandle()
	sym.Assert(h.Update(context.Background(), schema.NewMetaCache(3, nil)) == nil, "updating the schema succeeds")
	t := txn.NewTxn(h, true, db)
	a, b := 0, 0
	t.AddCancelFunc(func() { a++ })
	t.AddCancelFunc(func() { b++ })
	_, err := t.Exists([]byte("k"))
	sym.Assert(err == nil, "reading succeeds")
	sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	conflict := flip("conflict")
	if conflict {
		sym.Assert(db.Set([]byte("k"), []byte("w"), nil) == nil, "writing succeeds")
	}
	db.All(1)
	err = t.Commit()
	failed := db.Off() > 0
	t.Discard()
	if conflict || failed {
		sym.Assert(err != nil && err != txn.ErrDDLConflict, "a failed commit is reported")
		sym.Assert(a == 1 && b == 1, "every cancel action runs once")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil && a == 0 && b == 0, "a successful commit cancels nothing")
	}
	apply(h, true, change(4, 1))
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// A transaction beginning while a schema change is committed and made current: if it
// works with the new schema then it also sees what the change wrote; otherwise its
// commit is refused when it uses the changed collection.
//
//sym:opt secs=60
func C24_Begin() {
	db := store.Open()
	h := schema.NewHandle()
	sym.Assert(h.Update(context.Background(), schema.NewMetaCache(3, nil)) == nil, "updating the schema succeeds")
	done := make(chan bool, 1)
	sym.Interleave(pick(2, 3))
	go func() {
		sym.Assert(db.Set([]byte("schema"), []byte("new"), nil) == nil, "writing succeeds")
		apply(h, true, change(4, 1))
		done <- true
	}()
	t := txn.NewTxn(h, true, db)
	sym.Yield("begun")
	t.ReferredCollections(1)
	v := t.StartMetaCache().Version()
	_, _, gerr := t.Get([]byte("schema"))
	if v == 4 {
		sym.Assert(gerr == nil, "a transaction that works with a schema sees what that schema's change wrote")
		sym.Cover("new")
	}
	sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	<-done
	err := t.Commit()
	t.Discard()
	if v == 4 {
		sym.Assert(err == nil, "a commit without a change in between succeeds")
	} else {
		sym.Assert(err == txn.ErrDDLConflict, "a commit that straddles a change of its collections fails with the conflict error")
		sym.Cover("old")
	}
}

// Every document operation run in a transaction makes it depend on its collection, and
// on no other.
func C24_Ops() {
	w := newWorld(3, dbOf(1, "d", map[string]int64{"c": 2, "e": 3}))
	c := w.coll("d", "c")
	did := sym.Int64("did")
	_, err := c.UpsertOne(did, doc{9}, nil)
	sym.Assert(err == nil, "upserting succeeds")
	t := w.begin(true)
	switch sym.Choice("op", 13) {
	case 0:
		_, err = c.InsertOne(doc{1}, t)
	case 1:
		err = c.InsertOneManaged(did+1, doc{1}, t)
	case 2:
		_, err = c.UpdateOne(did, doc{1}, t)
	case 3:
		_, err = c.UpsertOne(did, doc{1}, t)
	case 4:
		err = c.DeleteOne(did, t)
	case 5:
		_, err = c.DeleteAll(t)
	case 6:
		var d doc
		err = c.GetOne(did, &d, t)
	case 7:
		_, err = c.Count(t)
	case 8:
		var ds []doc
		err = c.GetMany([]int64{did}, &ds, t)
	case 9:
		_, _, err = c.GetDidRange(t)
	case 10:
		_, err = c.GetIndices(t)
	case 11:
		_, err = c.UpdateOne(did+1, doc{1}, t)
		// a document that does not exist
	default:
		var ds []doc
		err = c.GetAll(&ds, t)
	}
	sym.Assert(err == nil, "the operation succeeds")
	sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	before := w.db.Dump()
	touched := int64(sym.Byte("touched"))
	apply(w.h, true, change(2, touched))
	err = t.Commit()
	t.Discard()
	if touched == 2 {
		sym.Assert(err == txn.ErrDDLConflict, "a commit that straddles a change of its collections fails with the conflict error")
		sym.Assert(sameStore(before, w.db.Dump()), "a refused commit writes nothing")
		sym.Cover("conflict")
	} else {
		sym.Assert(err == nil, "changes of other collections do not make a commit fail")
		sym.Cover("committed")
	}
}

// Many collections in one change, many used by one transaction: every single one counts.
//
//sym:opt secs=60
func C24_Wide() {
	db := store.Open()
	h := schema.NewHandle()
	sym.Assert(h.Update(context.Background(), schema.NewMetaCache(7, nil)) == nil, "updating the schema succeeds")
	sizes := []int{1, 2, 3, 5, 9, 33, 140}
	at := func(name string, n int) int { return []int{0, n / 2, n - 1}[sym.Choice(name, 3)] }
	touched, used := make([]int64, sizes[sym.Choice("touched", len(sizes))]), make([]int64, sizes[sym.Choice("used", len(sizes))])
	for i := range touched {
		touched[i] = int64(1000 + i)
	}
	for i := range used {
		used[i] = int64(5000 + i)
	}
	id := sym.Int64("id")
	sym.Assume(id < 1000 || id > 6000)
	same := flip("same")
	touched[at("touched at", len(touched))] = id
	if same {
		used[at("used at", len(used))] = id
	}
	t := txn.NewTxn(h, true, db)
	cancelled := 0
	for i := 0; i < len(used); i++ {
		t.AddCancelFunc(func() { cancelled++ })
	}
	if flip("together") {
		t.ReferredCollections(used...)
	} else {
		for _, u := range used {
			t.ReferredCollections(u)
		}
	}
	sym.Assert(t.Set([]byte("k"), []byte("v"), nil) == nil, "writing succeeds")
	apply(h, true, change(8, touched...))
	err := t.Commit()
	t.Discard()
	if same {
		sym.Assert(err == txn.ErrDDLConflict, "a commit that straddles a change of its collections fails with the conflict error")
		sym.Assert(cancelled == len(used), "every cancel action runs once")
		sym.Cover("conflict")
	} else {
		sym.Assert(err == nil && cancelled == 0, "changes of other collections do not make a commit fail")
		sym.Cover("committed")
	}
}
