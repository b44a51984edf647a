package hdoc

import (
	"context"

	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"go.mongodb.org/mongo-driver/bson"
)

// doc is what the schema-managed collections store here.
type doc struct {
	V int64
}

// dbOf describes a database.
func dbOf(id int64, name string, cs map[string]int64) *model.DBInfo {
	d := &model.DBInfo{ID: id, Name: name, Collections: map[string]*model.CollectionInfo{}}
	for n, cid := range cs {
		d.Collections[n] = &model.CollectionInfo{ID: cid, Name: n, Indices: map[string]*model.IndexInfo{}}
		d.CollectionOrder = append(d.CollectionOrder, n)
	}
	return d
}

// world is an open domain without its background workers.
type world struct {
	db *store.DB
	h  *schema.Handle
	ds []*model.DBInfo
}

func newWorld(bandwidth int64, ds ...*model.DBInfo) *world {
	w := &world{db: store.Open(), h: schema.NewHandle(), ds: ds}
	w.current(1)
	for _, d := range ds {
		for _, c := range d.Collections {
			err := dml.CreateSequence(w.db, d.ID, c.ID, bandwidth)
			sym.Assert(err == nil, "creating a sequence succeeds")
		}
	}
	return w
}

func (w *world) current(version int64) {
	err := w.h.Update(context.Background(), schema.NewMetaCache(version, w.ds))
	sym.Assert(err == nil, "updating the schema succeeds")
}

func (w *world) coll(db, c string) *dml.Collection {
	d, err := dml.NewDB(db, w.db, w.h)
	sym.Assert(err == nil, "opening a database succeeds")
	r, err := d.Collection(c)
	sym.Assert(err == nil, "opening a collection succeeds")
	return r
}

func (w *world) begin(update bool) *txn.Txn { return txn.NewTxn(w.h, update, w.db) }

// mcheck reads everything back.
func (m *ideal) mcheck(c *dml.Collection, t *txn.Txn) {
	n, err := c.Count(t)
	sym.Assert(err == nil, "counting succeeds")
	sym.Assert(n == m.count(), "count is the number of documents")
	var all []doc
	err = c.GetAll(&all, t)
	sym.Assert(err == nil && len(all) == n, "every document is read")
	for i, did := range m.did {
		var d doc
		err := c.GetOne(did, &d, t)
		if m.live[i] {
			sym.Assert(err == nil, "a stored document is found")
			sym.Assert(d.V == m.val[i], "a document reads back as last written")
		} else {
			sym.Assert(err == dml.ErrDocNotFound, "an absent document is reported as not found")
		}
	}
	m.mrange(c, t)
}

func (m *ideal) mrange(c *dml.Collection, t *txn.Txn) {
	min, max, err := c.GetDidRange(t)
	sym.Assert(err == nil, "reading the id range succeeds")
	if m.count() == 0 {
		sym.Assert(min == 0 && max == 0, "the id range of an empty collection is zero")
		return
	}
	within, hasMin, hasMax := true, false, false
	for i, did := range m.did {
		if m.live[i] {
			within = sym.And(within, min <= did, did <= max)
			hasMin = sym.Or(hasMin, did == min)
			hasMax = sym.Or(hasMax, did == max)
		}
	}
	sym.Assert(sym.And(within, hasMin, hasMax), "the id range is the smallest and largest document id")
}

// manStep runs one arbitrary operation and compares it with the ideal map.
func manStep(c *dml.Collection, m *ideal, a *auto, t *txn.Txn) {
	op := sym.Choice("op", 10)
	var did, val int64
	if op >= 1 && op <= 5 {
		did = sym.Int64("did")
	}
	if op <= 3 {
		val = sym.Int64("val")
	}
	switch op {
	case 0:
		id, err := c.InsertOne(doc{val}, t)
		sym.Assert(err == nil, "inserting succeeds")
		a.hand(id)
		m.put(id, val)
	case 1:
		i := m.find(did)
		err := c.InsertOneManaged(did, doc{val}, t)
		if m.live[i] {
			sym.Assert(err == dml.ErrDocExists, "a managed insert of an existing id is refused")
			sym.Cover("refused")
		} else {
			sym.Assert(err == nil, "a managed insert of a new id succeeds")
			m.put(did, val)
		}
	case 2:
		i := m.find(did)
		exists, err := c.UpdateOne(did, doc{val}, t)
		sym.Assert(err == nil, "updating succeeds")
		sym.Assert(exists == m.live[i], "an update reports whether the document existed")
		if exists {
			m.put(did, val)
			sym.Cover("updated")
		}
	case 3:
		i := m.find(did)
		isNew, err := c.UpsertOne(did, bson.M{"v": val}, t)
		sym.Assert(err == nil, "upserting succeeds")
		sym.Assert(isNew == !m.live[i], "an upsert reports whether the document is new")
		m.put(did, val)
	case 4:
		i := m.find(did)
		err := c.DeleteOne(did, t)
		sym.Assert(err == nil, "deleting succeeds")
		m.live[i] = false
	case 5:
		i := m.find(did)
		var d doc
		err := c.GetOne(did, &d, t)
		if m.live[i] {
			sym.Assert(err == nil && d.V == m.val[i], "a document reads back as last written")
		} else {
			sym.Assert(err == dml.ErrDocNotFound, "an absent document is reported as not found")
		}
	case 6:
		n, err := c.Count(t)
		sym.Assert(err == nil && n == m.count(), "count is the number of documents")
	case 7:
		n, err := c.DeleteAll(t)
		sym.Assert(err == nil, "deleting all succeeds")
		sym.Assert(n == m.count(), "delete-all counts the documents it removes")
		for i := range m.live {
			m.live[i] = false
		}
		sym.Cover("deleted all")
	case 8:
		m.mrange(c, t)
	default:
		ids := append([]int64(nil), m.did...)
		if len(ids) > 2 {
			ids = ids[len(ids)-2:]
		}
		var ds []doc
		err := c.GetMany(ids, &ds, t)
		k := len(m.did) - len(ids)
		for j := range ids {
			if !m.live[k+j] {
				sym.Assert(err == dml.ErrDocNotFound, "an absent document is reported as not found")
				return
			}
		}
		sym.Assert(err == nil && len(ds) == len(ids), "every document asked for is returned")
		for j := range ids {
			sym.Assert(ds[j].V == m.val[k+j], "documents come in the order asked for")
		}
	}
}

// Arbitrary operations on one of three collections whose neighbours hold a document
// with an arbitrary id: on their own, or in a transaction that is committed, discarded,
// or fails to commit.
//
//sym:opt secs=200 tsecs=900
func C23_Map() {
	w := newWorld(3, dbOf(1, "d", map[string]int64{"c": 2, "e": 3}), dbOf(4, "x", map[string]int64{"c": 5}))
	c, e, x := w.coll("d", "c"), w.coll("d", "e"), w.coll("x", "c")
	m, me, mx, a := &ideal{}, &ideal{}, &ideal{}, &auto{}
	which := sym.Choice("which", 3)
	for i := sym.Choice("initial", pick(2, 3)); i > 0; i-- {
		did, val := sym.Int64("did0"), sym.Int64("val0")
		_, err := c.UpsertOne(did, doc{val}, nil)
		sym.Assert(err == nil, "upserting succeeds")
		m.put(did, val)
	}
	odid := sym.Int64("other")
	_, err := e.UpsertOne(odid, doc{77}, nil)
	sym.Assert(err == nil, "upserting succeeds")
	me.put(odid, 77)
	if which == 1 {
		c, e, m, me = e, c, me, m
	}
	if which == 2 {
		c, x, m, mx = x, c, mx, m
	}

	mode := sym.Choice("transaction", 4)
	before := m.clone()
	var t *txn.Txn
	if mode > 0 {
		t = w.begin(true)
	}
	n := pick(2, 3)
	if which > 0 {
		n = pick(1, 2)
	}
	for i := 0; i < n; i++ {
		manStep(c, m, a, t)
	}
	switch mode {
	case 1:
		sym.Assert(t.Commit() == nil, "committing succeeds")
	case 2:
		t.Discard()
		m = before
	case 3:
		w.db.All(1)
		err := t.Commit()
		t.Discard()
		if w.db.Off() > 0 {
			sym.Assert(err != nil, "a failed commit is reported")
			m = before
			sym.Cover("commit failed")
		}
	}
	m.mcheck(c, nil)
	me.mcheck(e, nil)
	mx.mcheck(x, nil)
	sym.Assert(w.db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Automatic inserts in overlapping transactions that commit, conflict, fail or are
// abandoned, in any order: no committed document is ever overwritten.
//
//sym:opt secs=60 tsecs=600
func C23_Auto() {
	w := newWorld(int64(1+sym.Choice("bandwidth", 3)), dbOf(1, "d", map[string]int64{"c": 2}))
	c := w.coll("d", "c")
	committed := &auto{}
	var ts [2]*txn.Txn
	var ids [2][]int64
	for i := 0; i < pick(5, 7); i++ {
		k := sym.Choice("who", 2)
		if ts[k] == nil {
			ts[k] = w.begin(true)
			ids[k] = nil
		}
		switch sym.Choice("op", 4) {
		case 0:
			id, err := c.InsertOne(doc{int64(i)}, ts[k])
			sym.Assert(err == nil, "inserting succeeds")
			for _, o := range ids[1-k] {
				sym.Assert(o != id, "open transactions get different ids")
			}
			for _, o := range ids[k] {
				sym.Assert(o != id, "one transaction gets different ids")
			}
			ids[k] = append(ids[k], id)
		case 1:
			sym.Assert(ts[k].Commit() == nil, "committing succeeds")
			for _, id := range ids[k] {
				committed.hand(id)
			}
			ts[k], ids[k] = nil, nil
			sym.Cover("committed")
		case 2:
			// a conflicting commit
			_, err := ts[k].Exists([]byte("z"))
			sym.Assert(err == nil, "reading succeeds")
			sym.Assert(ts[k].Set([]byte("z"), []byte{1}, nil) == nil, "writing succeeds")
			sym.Assert(w.db.Set([]byte("z"), []byte{byte(i)}, nil) == nil, "writing succeeds")
			sym.Assert(ts[k].Commit() != nil, "a conflicting commit fails")
			ts[k].Discard()
			ts[k], ids[k] = nil, nil
			sym.Cover("conflict")
		default:
			ts[k].Discard()
			ts[k], ids[k] = nil, nil
		}
	}
	for k := range ts {
		if ts[k] != nil {
			ts[k].Discard()
		}
	}
	n, err := c.Count(nil)
	sym.Assert(err == nil && n == len(committed.ids), "every committed document is there")
	sym.Cover("end")
}

// Operations that cannot take effect say so: unknown databases and collections, missing
// sequences, read-only transactions.
func C23_Missing() {
	w := newWorld(3, dbOf(1, "d", map[string]int64{"c": 2, "e": 3}))
	c := w.coll("d", "c")
	_, err := dml.NewDB("nope", w.db, w.h)
	sym.Assert(err == dml.ErrDBNotExists, "an unknown database is reported")
	d, err := dml.NewDB("d", w.db, w.h)
	sym.Assert(err == nil, "opening a database succeeds")
	_, err = d.Collection("nope")
	sym.Assert(err == dml.ErrCollectionNotExists, "an unknown collection is reported")
	_, err = c.Index("nope")
	sym.Assert(err == dml.ErrIndexNotExists, "an unknown index is reported")
	_, err = c.UpsertOne(9, doc{9}, nil)
	sym.Assert(err == nil, "upserting succeeds")

	why := sym.Choice("why", 4)
	var want error
	switch why {
	case 0: // the collection is gone
		w.ds = []*model.DBInfo{dbOf(1, "d", map[string]int64{"e": 3})}
		w.current(2)
		want = dml.ErrCollectionNotExists
	case 1: // the database is gone
		w.ds = nil
		w.current(2)
		want = dml.ErrCollectionNotExists
	case 2: // the sequence is gone
		sym.Assert(dml.DropSequence(2) == nil, "dropping a sequence succeeds")
		want = dml.ErrSequenceNotExists
	}
	var t *txn.Txn
	if why == 3 || flip("in a transaction") {
		t = w.begin(why != 3)
	}
	before := w.db.Dump()
	op := sym.Choice("op", 11)
	switch op {
	case 0:
		var id int64
		id, err = c.InsertOne(doc{1}, t)
		_ = id
	case 1:
		err = c.InsertOneManaged(7, doc{1}, t)
	case 2:
		_, err = c.UpdateOne(9, doc{1}, t)
	case 3:
		_, err = c.UpsertOne(9, doc{1}, t)
	case 4:
		err = c.DeleteOne(9, t)
	case 5:
		_, err = c.DeleteAll(t)
	case 6:
		var d doc
		err = c.GetOne(9, &d, t)
	case 7:
		_, err = c.Count(t)
	case 8:
		var ds []doc
		err = c.GetMany([]int64{9}, &ds, t)
	case 9:
		_, _, err = c.GetDidRange(t)
	default:
		var ds []doc
		err = c.GetAll(&ds, t)
	}
	switch {
	case why < 2:
		sym.Assert(err == want, "an operation on a missing collection reports it")
	case why == 2 && op == 0:
		sym.Assert(err == want, "an insert without a sequence reports it")
	case why == 3 && op <= 5:
		sym.Assert(err != nil, "a read-only transaction refuses writes")
	default:
		sym.Assert(err == nil, "operations that need nothing missing succeed")
	}
	if t != nil {
		t.Discard()
	}
	if why != 2 || op == 0 {
		after := w.db.Dump()
		if !(why == 3 && op == 0) { // a lease may have been taken
			sym.Assert(sameStore(before, after), "an operation that did not take effect changes nothing")
		}
	}
	sym.Assert(w.db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// One failing storage call: the operation reports an error and, outside a caller's
// transaction, changes nothing.
func C23_Fault() {
	w := newWorld(int64(1+sym.Choice("bandwidth", 2)), dbOf(1, "d", map[string]int64{"c": 2}))
	db, c := w.db, w.coll("d", "c")
	m, a := &ideal{}, &auto{}
	for i := sym.Choice("initial", 3); i > 0; i-- {
		did := int64(i)*1000 + 5000
		_, err := c.UpsertOne(did, doc{did}, nil)
		sym.Assert(err == nil, "upserting succeeds")
		m.put(did, did)
	}
	for i := sym.Choice("allocated", 2); i > 0; i-- {
		id, err := c.InsertOne(doc{3}, nil)
		sym.Assert(err == nil, "inserting succeeds")
		a.hand(id)
		m.put(id, 3)
	}
	did := int64(6000 + 1000*sym.Choice("did", 2))
	m.find(did)
	var t *txn.Txn
	if flip("in a transaction") {
		t = w.begin(true)
	}
	var err error
	db.All(1)
	switch sym.Choice("op", 11) {
	case 0:
		_, err = c.InsertOne(doc{1}, t)
	case 1:
		err = c.InsertOneManaged(did, doc{1}, t)
	case 2:
		_, err = c.UpdateOne(did, doc{1}, t)
	case 3:
		_, err = c.UpsertOne(did, doc{1}, t)
	case 4:
		err = c.DeleteOne(did, t)
	case 5:
		var d doc
		err = c.GetOne(did, &d, t)
	case 6:
		_, err = c.Count(t)
	case 7:
		_, err = c.DeleteAll(t)
	case 8:
		_, _, err = c.GetDidRange(t)
	case 9:
		var ds []doc
		err = c.GetAll(&ds, t)
	default:
		var ds []doc
		err = c.GetMany([]int64{did}, &ds, t)
	}
	if db.Off() == 0 {
		sym.Cover("unharmed")
		return
	}
	sym.Assert(err != nil, "an operation whose storage call failed reports an error")
	sym.Assert(err != dml.ErrDocNotFound && err != dml.ErrDocExists && err != kv.ErrKeyNotFound, "a storage failure is not reported as absence")
	if t != nil {
		t.Discard()
	}
	for i := 0; i < 3; i++ {
		id, err := c.InsertOne(doc{int64(i)}, nil)
		sym.Assert(err == nil, "inserting succeeds")
		a.hand(id)
		m.put(id, int64(i))
	}
	m.mcheck(c, nil)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("failed")
}

// Collections of many documents.
//
//sym:opt secs=100 steps=30000000
func C23_Many() {
	w := newWorld(int64(1+6*sym.Choice("bandwidth", 2)), dbOf(1, "d", map[string]int64{"c": 2, "o": 3}))
	c, o := w.coll("d", "c"), w.coll("d", "o")
	m, mo, a := &ideal{}, &ideal{}, &auto{}
	sizes := []int{12, 40, 130, 320}
	n := sizes[sym.Choice("size", len(sizes))]
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			id, err := c.InsertOne(doc{int64(i)}, nil)
			sym.Assert(err == nil, "inserting succeeds")
			a.hand(id)
			m.put(id, int64(i))
		} else {
			id := int64(n-i) * 5000
			sym.Assert(c.InsertOneManaged(id, doc{int64(i)}, nil) == nil, "inserting succeeds")
			m.put(id, int64(i))
		}
	}
	_, err := o.UpsertOne(5000, doc{1}, nil)
	sym.Assert(err == nil, "upserting succeeds")
	mo.put(5000, 1)
	at := sym.Choice("at", 3) * (n - 1) / 2
	v := sym.Int64("v")
	exists, err := c.UpdateOne(m.did[at], doc{v}, nil)
	sym.Assert(err == nil && exists, "updating reports whether the document existed")
	m.val[at] = v
	m.mcheck(c, nil)
	var ds []doc
	sym.Assert(c.GetMany(m.did, &ds, nil) == nil && len(ds) == n, "every document asked for is returned")
	for i := range ds {
		sym.Assert(ds[i].V == m.val[i], "documents come in the order asked for")
	}
	var t *txn.Txn
	if flip("in a transaction") {
		t = w.begin(true)
	}
	k, err := c.DeleteAll(t)
	sym.Assert(err == nil && k == n, "delete-all counts the documents it removes")
	if t != nil {
		sym.Assert(t.Commit() == nil, "committing succeeds")
	}
	for i := range m.live {
		m.live[i] = false
	}
	m.mcheck(c, nil)
	mo.mcheck(o, nil)
	sym.Cover("end")
}

// wide is a document with fields of many types, any of which may be absent.
type wide struct {
	V int64            `bson:"v,omitempty"`
	S string           `bson:"s,omitempty"`
	B []byte           `bson:"b,omitempty"`
	P *int64           `bson:"p,omitempty"`
	L []int64          `bson:"l,omitempty"`
	M map[string]int64 `bson:"m,omitempty"`
	N *doc             `bson:"n,omitempty"`
}

// shaped makes a document of one of several shapes.
func shaped(shape int, v int64) (d wide) {
	switch shape {
	case 1:
		d.V = v
	case 2:
		d.S, d.P = "text", &v
	case 3:
		d.L, d.M = []int64{v, 2, v}, map[string]int64{"a": v}
	case 4:
		d.N, d.B = &doc{v}, []byte{0, byte(v), 255}
	}
	return
}

func (d *wide) like(o *wide) bool {
	if (d.P == nil) != (o.P == nil) || (d.N == nil) != (o.N == nil) || len(d.B) != len(o.B) || len(d.L) != len(o.L) || len(d.M) != len(o.M) {
		return false
	}
	same := sym.And(d.V == o.V, d.S == o.S)
	if d.P != nil {
		same = sym.And(same, *d.P == *o.P)
	}
	if d.N != nil {
		same = sym.And(same, d.N.V == o.N.V)
	}
	for i := range d.B {
		same = sym.And(same, d.B[i] == o.B[i])
	}
	for i := range d.L {
		same = sym.And(same, d.L[i] == o.L[i])
	}
	for k, x := range d.M {
		y, ok := o.M[k]
		same = sym.And(same, ok, x == y)
	}
	return same
}

// Documents of different shapes, the empty one included: each is replaced as a whole, and
// reading several at once, some of them twice, gives each its own content.
//
//sym:opt secs=60 tsecs=300
func C23_Shapes() {
	w := newWorld(3, dbOf(1, "d", map[string]int64{"c": 2}))
	c := w.coll("d", "c")
	var want [2]wide
	var ids [2]int64
	for i := range ids {
		want[i] = shaped(sym.Choice("shape", 5), sym.Int64("v"))
		var err error
		ids[i], err = c.InsertOne(want[i], nil)
		sym.Assert(err == nil, "inserting succeeds")
	}
	// replaced by another shape
	next := shaped(sym.Choice("new shape", 5), sym.Int64("w"))
	switch sym.Choice("replace", 3) {
	case 0:
		exists, err := c.UpdateOne(ids[0], &next, nil)
		sym.Assert(err == nil && exists, "updating reports whether the document existed")
		want[0] = next
	case 1:
		isNew, err := c.UpsertOne(ids[0], next, nil)
		sym.Assert(err == nil && !isNew, "upserting reports whether the document is new")
		want[0] = next
	default:
		sym.Assert(c.InsertOneManaged(ids[0], next, nil) == dml.ErrDocExists, "a managed insert of an existing id is refused")
	}
	var one wide
	sym.Assert(c.GetOne(ids[0], &one, nil) == nil && one.like(&want[0]), "a document reads back as last written")
	a, b, d := sym.Choice("first", 2), sym.Choice("second", 2), sym.Choice("third", 2)
	var got []wide
	sym.Assert(c.GetMany([]int64{ids[a], ids[b], ids[d]}, &got, nil) == nil && len(got) == 3, "every document asked for is returned")
	for i, k := range []int{a, b, d} {
		sym.Assert(got[i].like(&want[k]), "documents come in the order asked for")
	}
	var all []wide
	sym.Assert(c.GetAll(&all, nil) == nil && len(all) == 2, "every document is read")
	for i := range all {
		sym.Assert(all[i].like(&want[i]), "every document is read as written")
	}
	// what one reader does to its documents is nobody else's business
	for i := range got {
		if len(got[i].L) > 0 {
			got[i].L[0]++
			*(&got[i].M) = nil
		}
		if got[i].P != nil {
			*got[i].P++
		}
	}
	sym.Assert(c.GetOne(ids[1], &one, nil) == nil, "a stored document is found")
	for i, k := range []int{a, b, d} {
		if got[i].P != nil {
			sym.Assert(*got[i].P == *want[k].P+1, "documents returned are independent of each other")
		}
	}
	sym.Cover("end")
}
