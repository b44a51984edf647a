package hdoc

import (
	"errors"
	"strings"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// docs is what the two document systems have in common.
type docs struct {
	insert  func(v int64) (int64, error)
	within  func(v int64) (int64, error) // insert in a transaction of the caller
	managed func(did, v int64) error
	update  func(did, v int64) (bool, error)
	upsert  func(did, v int64) (bool, error)
	remove  func(did int64) error
	get     func(did int64) (int64, error)
	count   func() (int, error)
	clear   func() (int, error)
}

var errShape = errors.New("a document of another shape")

func simpleDocs(db *store.DB, c *document.Collection) docs {
	return docs{
		func(v int64) (int64, error) { return c.InsertOne(mkdoc(v), nil) },
		func(v int64) (int64, error) {
			t := db.NewTransaction(true)
			defer t.Discard()
			id, err := c.InsertOne(mkdoc(v), t)
			if err == nil {
				err = t.Commit()
			}
			return id, err
		},
		func(did, v int64) error { return c.InsertOneManaged(did, mkdoc(v), nil) },
		func(did, v int64) (bool, error) { return c.UpdateOne(did, mkdoc(v), nil) },
		func(did, v int64) (bool, error) { return c.UpsertOne(did, mkdoc(v), nil) },
		func(did int64) error { return c.DeleteOne(did, nil) },
		func(did int64) (int64, error) {
			d, err := c.GetOne(did, nil)
			if err != nil {
				return 0, err
			}
			x, ok := d["v"].(int64)
			if !ok || len(d) != 1 {
				return 0, errShape
			}
			return x, nil
		},
		func() (int, error) { return c.Count(nil) },
		func() (int, error) { return c.DeleteAll(nil) },
	}
}

func schemaDocs(w *world, c *dml.Collection) docs {
	return docs{
		func(v int64) (int64, error) { return c.InsertOne(doc{v}, nil) },
		func(v int64) (int64, error) {
			t := w.begin(true)
			defer t.Discard()
			id, err := c.InsertOne(doc{v}, t)
			if err == nil {
				err = t.Commit()
			}
			return id, err
		},
		func(did, v int64) error { return c.InsertOneManaged(did, doc{v}, nil) },
		func(did, v int64) (bool, error) { return c.UpdateOne(did, doc{v}, nil) },
		func(did, v int64) (bool, error) { return c.UpsertOne(did, doc{v}, nil) },
		func(did int64) error { return c.DeleteOne(did, nil) },
		func(did int64) (int64, error) {
			var d doc
			err := c.GetOne(did, &d, nil)
			return d.V, err
		},
		func() (int, error) { return c.Count(nil) },
		func() (int, error) { return c.DeleteAll(nil) },
	}
}

func docAbsent(err error) bool { return err == document.ErrDocNotFound || err == dml.ErrDocNotFound }
func docThere(err error) bool  { return err == document.ErrDocIDExists || err == dml.ErrDocExists }

// call is one operation and what came of it.
type call struct {
	op       int
	did, val int64

	mine bool  // inserts in a transaction of its own
	id   int64 // where an insert went
	yes  bool
	n    int
	read int64
	err  error
}

func anyCall(who int64) *call {
	k := &call{op: sym.Choice("op", 8), did: 5000, val: 100 + who}
	if k.op >= 1 && k.op <= 5 && who > 0 && flip("another document") {
		k.did = 6000
	}
	if k.op == 0 {
		k.mine = flip("own transaction")
	}
	return k
}

func (k *call) run(c docs) {
	switch k.op {
	case 0:
		if k.mine {
			k.id, k.err = c.within(k.val)
		} else {
			k.id, k.err = c.insert(k.val)
		}
	case 1:
		k.err = c.managed(k.did, k.val)
	case 2:
		k.yes, k.err = c.update(k.did, k.val)
	case 3:
		k.yes, k.err = c.upsert(k.did, k.val)
	case 4:
		k.err = c.remove(k.did)
	case 5:
		k.read, k.err = c.get(k.did)
	case 6:
		k.n, k.err = c.count()
	default:
		k.n, k.err = c.clear()
	}
}

// refused tells whether the store turned the call down, in which case it did nothing.
func (k *call) refused() bool {
	return k.err != nil && (k.err == store.ErrInjected || strings.Contains(k.err.Error(), "Conflict"))
}

// on applies the call to the ideal map and tells whether its result is the map's.
func (k *call) on(m *ideal) bool {
	if k.refused() {
		return true
	}
	i := 0
	if k.op >= 1 && k.op <= 5 {
		i = m.find(k.did)
	}
	switch k.op {
	case 0:
		for j, did := range m.did {
			if did == k.id && m.live[j] {
				return false
			}
		}
		m.put(k.id, k.val)
		return k.err == nil
	case 1:
		if m.live[i] {
			return docThere(k.err)
		}
		m.put(k.did, k.val)
		return k.err == nil
	case 2:
		if k.yes != m.live[i] {
			return false
		}
		if k.yes {
			m.put(k.did, k.val)
		}
		return k.err == nil
	case 3:
		if k.yes == m.live[i] {
			return false
		}
		m.put(k.did, k.val)
		return k.err == nil
	case 4:
		m.live[i] = false
		return k.err == nil
	case 5:
		if m.live[i] {
			return k.err == nil && k.read == m.val[i]
		}
		return docAbsent(k.err)
	case 6:
		return k.err == nil && k.n == m.count()
	}
	n := m.count()
	for i := range m.live {
		m.live[i] = false
	}
	return k.err == nil && k.n == n
}

// final tells whether the collection holds what the map holds.
func (m *ideal) final(c docs) bool {
	n, err := c.count()
	if err != nil || n != m.count() {
		return false
	}
	for i, did := range m.did {
		v, err := c.get(did)
		if m.live[i] && (err != nil || v != m.val[i]) || !m.live[i] && !docAbsent(err) {
			return false
		}
	}
	return true
}

// concurrently runs two calls at once on a collection, possibly with one failing storage
// call, and looks for an order of the two that explains everything seen.
func concurrently(db *store.DB, c docs) {
	full := sym.Choice("documents", 3)
	var k [2]*call
	for i := range k {
		k[i] = anyCall(int64(i))
	}
	faulty := k[0].op == 0 && k[1].op == 0 && flip("failing")
	if faulty && !sym.Thorough() {
		sym.Interleave(1)
	} else {
		sym.Interleave(pick(1, 2))
	}
	again(func(int) {
		_, err := c.clear()
		sym.Assert(err == nil, "deleting all succeeds")
		m := &ideal{}
		m.find(5000)
		m.find(6000)
		for i := 0; i < full; i++ {
			did := int64(5000 + 1000*i)
			_, err := c.upsert(did, did)
			sym.Assert(err == nil, "upserting succeeds")
			m.put(did, did)
		}
		var calls []func()
		var r [2]call
		for i := range k {
			i := i
			r[i] = *k[i]
			calls = append(calls, func() { r[i].run(c) })
		}
		if faulty {
			db.All(1)
		}
		together(calls...)
		if faulty {
			db.Off()
		}
		a, b := m.clone(), m.clone()
		ab := r[0].on(a)
		ab = r[1].on(a) && ab && a.final(c)
		ba := r[1].on(b)
		ba = r[0].on(b) && ba && b.final(c)
		sym.Assert(ab || ba, "concurrent operations take effect as if one after the other")
		if ba && !ab {
			a = b
		}
		for i := range r {
			if r[i].refused() {
				sym.Cover("refused")
			}
		}
		// ids stay unique afterwards
		for i := int64(0); i < 3 && (r[0].op == 0 || r[1].op == 0); i++ {
			id, err := c.insert(i)
			sym.Assert(err == nil, "inserting succeeds")
			for j := range a.did {
				sym.Assert(a.did[j] != id, "an automatic insert gets an id never handed out before")
			}
			a.put(id, i)
		}
		sym.Assert(a.final(c), "a document reads back as last written")
		sym.Assert(db.Open_ == 0 || sym.Tries(2) > 1, "no transaction is left open")
	})
	sym.Cover("end")
}

// C30_Docs: two operations at once on a collection of the document database.
//
//sym:opt secs=100 tsecs=600
func C30_Docs() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	concurrently(db, simpleDocs(db, c))
}

// C30_Managed: two operations at once on a schema-managed collection.
//
//sym:opt secs=100 tsecs=600
func C30_Managed() {
	cid := int64(6)
	w := newWorld(2, dbOf(1, "d", map[string]int64{"c": cid}))
	c := w.coll("d", "c")
	concurrently(w.db, schemaDocs(w, c))
	dml.DropSequenceIfExists(cid)
}
