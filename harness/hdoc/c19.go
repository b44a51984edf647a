package hdoc

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// ideal is the map a collection is compared with. Entries are never removed from the
// slice, only marked dead, so that every id mentioned is read back at the end.
type ideal struct {
	did  []int64
	val  []int64
	live []bool
}

func (m *ideal) find(did int64) int {
	for i := range m.did {
		if m.did[i] == did {
			return i
		}
	}
	m.did = append(m.did, did)
	m.val = append(m.val, 0)
	m.live = append(m.live, false)
	return len(m.did) - 1
}

func (m *ideal) count() (n int) {
	for _, l := range m.live {
		if l {
			n++
		}
	}
	return
}

func (m *ideal) clone() *ideal {
	return &ideal{append([]int64(nil), m.did...), append([]int64(nil), m.val...), append([]bool(nil), m.live...)}
}

func (m *ideal) put(did, val int64) {
	i := m.find(did)
	m.val[i], m.live[i] = val, true
}

// auto remembers ids handed out automatically.
type auto struct{ ids []int64 }

func (a *auto) hand(id int64) {
	for _, o := range a.ids {
		sym.Assert(o != id, "an automatic insert gets an id never handed out before")
	}
	a.ids = append(a.ids, id)
}

func mkdoc(v int64) bson.M { return bson.M{"v": v} }

func isdoc(d bson.M, v int64) bool {
	if len(d) != 1 {
		return false
	}
	x, ok := d["v"].(int64)
	return ok && x == v
}

// check reads everything back.
func (m *ideal) check(c *document.Collection, txn mondis.ProviderTxn) {
	n, err := c.Count(txn)
	sym.Assert(err == nil, "counting succeeds")
	sym.Assert(n == m.count(), "count is the number of documents")
	for i, did := range m.did {
		d, err := c.GetOne(did, txn)
		if m.live[i] {
			sym.Assert(err == nil, "a stored document is found")
			sym.Assert(isdoc(d, m.val[i]), "a document reads back as last written")
		} else {
			sym.Assert(err == document.ErrDocNotFound, "an absent document is reported as not found")
		}
	}
}

// docStep runs one arbitrary operation and compares it with the ideal map.
func docStep(c *document.Collection, m *ideal, a *auto, txn mondis.ProviderTxn) {
	op := sym.Choice("op", 9)
	var did, val int64
	if op >= 1 && op <= 5 {
		did = sym.Int64("did")
	}
	if op <= 3 {
		val = sym.Int64("val")
	}
	switch op {
	case 0:
		id, err := c.InsertOne(mkdoc(val), txn)
		sym.Assert(err == nil, "inserting succeeds")
		a.hand(id)
		m.put(id, val)
	case 1:
		i := m.find(did)
		err := c.InsertOneManaged(did, mkdoc(val), txn)
		if m.live[i] {
			sym.Assert(err == document.ErrDocIDExists, "a managed insert of an existing id is refused")
			sym.Cover("refused")
		} else {
			sym.Assert(err == nil, "a managed insert of a new id succeeds")
			m.put(did, val)
		}
	case 2:
		i := m.find(did)
		exists, err := c.UpdateOne(did, mkdoc(val), txn)
		sym.Assert(err == nil, "updating succeeds")
		sym.Assert(exists == m.live[i], "an update reports whether the document existed")
		if exists {
			m.put(did, val)
			sym.Cover("updated")
		}
	case 3:
		i := m.find(did)
		isNew, err := c.UpsertOne(did, mkdoc(val), txn)
		sym.Assert(err == nil, "upserting succeeds")
		sym.Assert(isNew == !m.live[i], "an upsert reports whether the document is new")
		m.put(did, val)
	case 4:
		i := m.find(did)
		err := c.DeleteOne(did, txn)
		sym.Assert(err == nil, "deleting succeeds")
		m.live[i] = false
	case 5:
		i := m.find(did)
		d, err := c.GetOne(did, txn)
		if m.live[i] {
			sym.Assert(err == nil && isdoc(d, m.val[i]), "a document reads back as last written")
		} else {
			sym.Assert(err == document.ErrDocNotFound, "an absent document is reported as not found")
		}
	case 6:
		n, err := c.Count(txn)
		sym.Assert(err == nil && n == m.count(), "count is the number of documents")
	case 7:
		n, err := c.DeleteAll(txn)
		sym.Assert(err == nil, "deleting all succeeds")
		sym.Assert(n == m.count(), "delete-all counts the documents it removes")
		for i := range m.live {
			m.live[i] = false
		}
		sym.Cover("deleted all")
	default:
		ids := append([]int64(nil), m.did...)
		if len(ids) > 2 {
			ids = ids[len(ids)-2:]
		}
		ds, err := c.GetMany(ids, txn)
		k := len(m.did) - len(ids)
		for j := range ids {
			if !m.live[k+j] {
				sym.Assert(err == document.ErrDocNotFound, "an absent document is reported as not found")
				return
			}
		}
		sym.Assert(err == nil && len(ds) == len(ids), "every document asked for is returned")
		for j := range ids {
			sym.Assert(isdoc(ds[j], m.val[k+j]), "documents come in the order asked for")
		}
	}
}

// Arbitrary operations on a collection next to another one, from an arbitrary small
// state: on their own, in a transaction that is committed, or in one that is discarded.
//
//sym:opt secs=200 tsecs=900
func C19_Map() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	o, err := d.Collection("b")
	sym.Assert(err == nil, "opening succeeds")
	m, mo, a := &ideal{}, &ideal{}, &auto{}
	for i := sym.Choice("initial", 3); i > 0; i-- {
		did, val := sym.Int64("did0"), sym.Int64("val0")
		_, err := c.UpsertOne(did, mkdoc(val), nil)
		sym.Assert(err == nil, "upserting succeeds")
		m.put(did, val)
	}
	odid := sym.Int64("other")
	_, err = o.UpsertOne(odid, mkdoc(77), nil)
	sym.Assert(err == nil, "upserting succeeds")
	mo.put(odid, 77)

	mode := sym.Choice("transaction", 3)
	before := m.clone()
	var txn mondis.ProviderTxn
	if mode > 0 {
		txn = db.NewTransaction(true)
	}
	for i := 0; i < pick(2, 3); i++ {
		docStep(c, m, a, txn)
	}
	switch mode {
	case 1:
		sym.Assert(txn.Commit() == nil, "committing succeeds")
	case 2:
		txn.Discard()
		m = before
	}
	if flip("reopen") {
		d.Close()
		d = document.NewDB(db)
		c, err = d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
		o, err = d.Collection("b")
		sym.Assert(err == nil, "opening succeeds")
		sym.Cover("reopened")
	}
	m.check(c, nil)
	mo.check(o, nil)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Automatic ids: two collections with crashes and clean closes of the database, with
// documents coming and going; no id twice, no document lost.
//
//sym:opt secs=60
func C19_Auto() {
	db := store.Open()
	d := document.NewDB(db)
	var a [2]auto
	var m [2]ideal
	names := []string{"a", "b"}
	for i := 0; i < pick(4, 6); i++ {
		w := sym.Choice("who", 2)
		c, err := d.Collection(names[w])
		sym.Assert(err == nil, "opening succeeds")
		switch sym.Choice("op", 4) {
		case 0:
			v := sym.Int64("v")
			id, err := c.InsertOne(mkdoc(v), nil)
			sym.Assert(err == nil, "inserting succeeds")
			a[w].hand(id)
			m[w].put(id, v)
		case 1:
			n, err := c.DeleteAll(nil)
			sym.Assert(err == nil && n == m[w].count(), "delete-all counts the documents it removes")
			for i := range m[w].live {
				m[w].live[i] = false
			}
		case 2:
			d.Close()
			d = document.NewDB(db)
		default:
			d = document.NewDB(db)
		}
	}
	for w := range names {
		c, err := d.Collection(names[w])
		sym.Assert(err == nil, "opening succeeds")
		m[w].check(c, nil)
	}
	sym.Cover("end")
}

// One failing storage call: the operation reports an error and, outside a caller's
// transaction, changes nothing.
func C19_Fault() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	m := &ideal{}
	for i := sym.Choice("initial", 3); i > 0; i-- {
		did := int64(i)*1000 + 5000
		_, err := c.UpsertOne(did, mkdoc(did), nil)
		sym.Assert(err == nil, "upserting succeeds")
		m.put(did, did)
	}
	did := int64(6000 + 1000*sym.Choice("did", 2))
	val := sym.Int64("val")
	m.find(did)
	inTxn := flip("in a transaction")
	var txn mondis.ProviderTxn
	if inTxn {
		txn = db.NewTransaction(true)
	}
	db.All(1)
	switch sym.Choice("op", 9) {
	case 0:
		_, err = c.InsertOne(mkdoc(val), txn)
	case 1:
		err = c.InsertOneManaged(did, mkdoc(val), txn)
	case 2:
		_, err = c.UpdateOne(did, mkdoc(val), txn)
	case 3:
		_, err = c.UpsertOne(did, mkdoc(val), txn)
	case 4:
		err = c.DeleteOne(did, txn)
	case 5:
		_, err = c.GetOne(did, txn)
	case 6:
		_, err = c.Count(txn)
	case 7:
		_, err = c.DeleteAll(txn)
	default:
		_, err = c.GetMany([]int64{did}, txn)
	}
	if db.Off() == 0 {
		sym.Cover("unharmed")
		return
	}
	sym.Assert(err != nil, "an operation whose storage call failed reports an error")
	sym.Assert(err != document.ErrDocNotFound && err != document.ErrDocIDExists, "a storage failure is not reported as absence")
	if inTxn {
		txn.Discard()
	}
	m.check(c, nil)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("failed")
}

// Collections of many documents.
//
//sym:opt secs=100 steps=30000000
func C19_Many() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	o, err := d.Collection("b")
	sym.Assert(err == nil, "opening succeeds")
	m, mo, a := &ideal{}, &ideal{}, &auto{}
	sizes := []int{12, 40, 130, 320}
	n := sizes[sym.Choice("size", len(sizes))]
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			id, err := c.InsertOne(mkdoc(int64(i)), nil)
			sym.Assert(err == nil, "inserting succeeds")
			a.hand(id)
			m.put(id, int64(i))
		} else {
			id := int64(n-i) * 5000
			sym.Assert(c.InsertOneManaged(id, mkdoc(int64(i)), nil) == nil, "inserting succeeds")
			m.put(id, int64(i))
		}
	}
	_, err = o.UpsertOne(5000, mkdoc(1), nil)
	sym.Assert(err == nil, "upserting succeeds")
	mo.put(5000, 1)
	at := sym.Choice("at", 3) * (n - 1) / 2
	v := sym.Int64("v")
	exists, err := c.UpdateOne(m.did[at], mkdoc(v), nil)
	sym.Assert(err == nil && exists, "updating reports whether the document existed")
	m.val[at] = v
	m.check(c, nil)
	ds, err := c.GetMany(m.did, nil)
	sym.Assert(err == nil && len(ds) == n, "every document asked for is returned")
	for i := range ds {
		sym.Assert(isdoc(ds[i], m.val[i]), "documents come in the order asked for")
	}
	var txn mondis.ProviderTxn
	if flip("in a transaction") {
		txn = db.NewTransaction(true)
	}
	k, err := c.DeleteAll(txn)
	sym.Assert(err == nil && k == n, "delete-all counts the documents it removes")
	if txn != nil {
		sym.Assert(txn.Commit() == nil, "committing succeeds")
	}
	for i := range m.live {
		m.live[i] = false
	}
	m.check(c, nil)
	mo.check(o, nil)
	sym.Cover("end")
}

// shapedMap makes a document of one of several shapes.
func shapedMap(shape int, v int64) bson.M {
	switch shape {
	case 1:
		return bson.M{"v": v}
	case 2:
		return bson.M{"s": "text", "a": bson.A{v, "x", v}}
	case 3:
		return bson.M{"b": []byte{1, byte(v), 255}, "n": bson.M{"v": v}}
	case 4:
		return bson.M{"v": nil, "t": true, "i": int32(v)}
	}
	return bson.M{}
}

// isShaped compares what was read with the document that was written.
func isShaped(d bson.M, shape int, v int64) bool {
	w := shapedMap(shape, v)
	if len(d) != len(w) {
		return false
	}
	same := true
	switch shape {
	case 1:
		x, ok := d["v"].(int64)
		same = sym.And(ok, x == v)
	case 2:
		a, ok := d["a"].(bson.A)
		if d["s"] != "text" || !ok || len(a) != 3 || a[1] != "x" {
			return false
		}
		x, _ := a[0].(int64)
		y, _ := a[2].(int64)
		same = sym.And(x == v, y == v)
	case 3:
		b, ok := d["b"].(primitive.Binary)
		n, ok2 := d["n"].(bson.M)
		if !ok || !ok2 || len(b.Data) != 3 || len(n) != 1 {
			return false
		}
		x, ok := n["v"].(int64)
		same = sym.And(ok, x == v, b.Data[0] == 1, b.Data[1] == byte(v), b.Data[2] == 255)
	case 4:
		z, ok := d["v"]
		x, _ := d["i"].(int32)
		same = sym.And(ok, z == nil, d["t"] == true, x == int32(v))
	}
	return same
}

// Documents of different shapes, the empty one included: each is replaced as a whole, and
// reading several at once, some of them twice, gives each its own content.
//
//sym:opt secs=60
func C19_Shapes() {
	db := store.Open()
	c, err := document.NewDB(db).Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	var shape [2]int
	var val, ids [2]int64
	for i := range ids {
		shape[i], val[i] = sym.Choice("shape", 5), sym.Int64("v")
		ids[i], err = c.InsertOne(shapedMap(shape[i], val[i]), nil)
		sym.Assert(err == nil, "inserting succeeds")
	}
	ns, nv := sym.Choice("new shape", 5), sym.Int64("w")
	switch sym.Choice("replace", 3) {
	case 0:
		exists, err := c.UpdateOne(ids[0], shapedMap(ns, nv), nil)
		sym.Assert(err == nil && exists, "updating reports whether the document existed")
		shape[0], val[0] = ns, nv
	case 1:
		isNew, err := c.UpsertOne(ids[0], shapedMap(ns, nv), nil)
		sym.Assert(err == nil && !isNew, "upserting reports whether the document is new")
		shape[0], val[0] = ns, nv
	default:
		sym.Assert(c.InsertOneManaged(ids[0], shapedMap(ns, nv), nil) == document.ErrDocIDExists, "a managed insert of an existing id is refused")
	}
	one, err := c.GetOne(ids[0], nil)
	sym.Assert(err == nil && isShaped(one, shape[0], val[0]), "a document reads back as last written")
	one["more"] = 1
	ks := []int{sym.Choice("first", 2), sym.Choice("second", 2), sym.Choice("third", 2)}
	got, err := c.GetMany([]int64{ids[ks[0]], ids[ks[1]], ids[ks[2]]}, nil)
	sym.Assert(err == nil && len(got) == 3, "every document asked for is returned")
	for i, k := range ks {
		sym.Assert(isShaped(got[i], shape[k], val[k]), "documents come in the order asked for")
		got[i]["more"] = i // each is its own
	}
	sym.Cover("end")
}

// More documents than an id lease, counted and removed at once.
//
//sym:opt secs=60 steps=60000000
func C19_Leases() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	n, seen := 1030, map[int64]bool{}
	txn := db.NewTransaction(true)
	v := sym.Int64("v")
	var last int64
	for i := 0; i < n; i++ {
		if i == n-3 && flip("reopen") {
			sym.Assert(txn.Commit() == nil, "committing succeeds")
			txn = db.NewTransaction(true)
			if flip("cleanly") {
				d.Close()
			}
			d = document.NewDB(db)
			c, err = d.Collection("a")
			sym.Assert(err == nil, "opening succeeds")
		}
		last, err = c.InsertOne(mkdoc(v+int64(i)), txn)
		sym.Assert(err == nil, "inserting succeeds")
		sym.Assert(!seen[last], "an automatic insert gets an id never handed out before")
		seen[last] = true
	}
	sym.Assert(txn.Commit() == nil, "committing succeeds")
	k, err := c.Count(nil)
	sym.Assert(err == nil && k == n, "counting counts every document")
	got, err := c.GetOne(last, nil)
	sym.Assert(err == nil && isdoc(got, v+int64(n-1)), "reading returns what was last written")
	k, err = c.DeleteAll(nil)
	sym.Assert(err == nil && k == n, "delete-all counts the documents it removes")
	k, err = c.Count(nil)
	sym.Assert(err == nil && k == 0, "counting counts every document")
	sym.Cover("end")
}
