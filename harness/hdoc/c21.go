package hdoc

import (
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// Opening collections by arbitrary names in any order, with crashes and clean closes in
// between: one shared object per open database, the same documents after a reopen,
// different names never share documents.
//
//sym:opt secs=100 tsecs=900
func C21_Names() {
	db := store.Open()
	d := document.NewDB(db)
	var names []string
	var objs []*document.Collection
	var ms []*ideal
	for i := 0; i < pick(3, 4); i++ {
		if i > 0 {
			switch sym.Choice("reopen", 3) {
			case 1:
				d.Close()
				d = document.NewDB(db)
				objs = make([]*document.Collection, len(names))
			case 2:
				d = document.NewDB(db)
				objs = make([]*document.Collection, len(names))
			}
		}
		n := str("name", pick(2, 3))
		c, err := d.Collection(n)
		if n == "" {
			sym.Assert(c == nil && err == document.ErrEmptyCollectionName, "an empty name is refused")
			sym.Cover("empty")
			continue
		}
		sym.Assert(err == nil, "opening succeeds")
		k := -1
		for j := range names {
			if names[j] == n {
				k = j
			}
		}
		if k < 0 {
			k = len(names)
			names = append(names, n)
			objs = append(objs, nil)
			ms = append(ms, &ideal{})
		} else {
			sym.Cover("again")
		}
		if objs[k] != nil {
			sym.Assert(objs[k] == c, "one shared object per open database")
			sym.Cover("shared")
		}
		objs[k] = c
		ms[k].check(c, nil)
		did, err := c.InsertOne(mkdoc(int64(i)), nil)
		sym.Assert(err == nil, "inserting succeeds")
		ms[k].put(did, int64(i))
		ms[k].put(100, int64(50+i))
		_, err = c.UpsertOne(100, mkdoc(int64(50+i)), nil)
		sym.Assert(err == nil, "upserting succeeds")
	}
	d = document.NewDB(db)
	for k, n := range names {
		c, err := d.Collection(n)
		sym.Assert(err == nil, "opening succeeds")
		ms[k].check(c, nil)
	}
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Names that the library itself uses for its records are ordinary or refused, and never
// disturb id allocation.
func C21_Reserved() {
	db := store.Open()
	d := document.NewDB(db)
	names := []string{"collection", "index", "a", "collections", "m_s", "\x00", "m", "i"}
	n := names[sym.Choice("name", len(names))]
	c, err := d.Collection(n)
	if n == "collection" || n == "index" {
		sym.Assert(c == nil && err == document.ErrCollectionNameForbiden, "a reserved name is refused")
	} else {
		sym.Assert(c != nil && err == nil, "opening succeeds")
	}
	_, err = d.Collection("")
	sym.Assert(err == document.ErrEmptyCollectionName, "an empty name is refused")
	o, err := d.Collection("o")
	sym.Assert(err == nil, "opening succeeds")
	id, err := o.InsertOne(mkdoc(1), nil)
	sym.Assert(err == nil && id == 1, "inserting succeeds")
	if c != nil {
		id, err = c.InsertOne(mkdoc(2), nil)
		sym.Assert(err == nil && id == 1, "inserting succeeds")
	}
	x := &ixs{}
	x.create(o, &auto{}, document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
	x.check(o)
	m := &ideal{}
	m.put(1, 1)
	m.check(o, nil)
	sym.Cover("end")
}

// Once closed, every operation is refused and nothing is written.
func C21_Closed() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	_, err = c.UpsertOne(1, mkdoc(1), nil)
	sym.Assert(err == nil, "upserting succeeds")
	if flip("index") {
		_, err = c.CreateIndex(document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
		sym.Assert(err == nil, "creating an index succeeds")
	}
	failing := flip("storage fails while closing")
	if failing {
		db.All(1)
	}
	d.Close()
	db.Off()
	if flip("twice") {
		d.Close()
	}
	before := db.Dump()
	txn := db.NewTransaction(true)
	t := txn
	if flip("no transaction") {
		t = nil
	}
	for i := 0; i < pick(1, 2); i++ {
		switch sym.Choice("op", 13) {
		case 0:
			_, err = c.InsertOne(mkdoc(1), t)
		case 1:
			err = c.InsertOneManaged(7, mkdoc(1), t)
		case 2:
			_, err = c.UpdateOne(1, mkdoc(2), t)
		case 3:
			_, err = c.UpsertOne(1, mkdoc(2), t)
		case 4:
			err = c.DeleteOne(1, t)
		case 5:
			_, err = c.GetOne(1, t)
		case 6:
			_, err = c.Count(t)
		case 7:
			_, err = c.DeleteAll(t)
		case 8:
			_, err = c.GetMany([]int64{1}, t)
		case 9:
			_, err = c.CreateIndex(document.IndexDefinition{Name: "j", Fields: []document.IndexField{{Name: "q"}}})
		case 10:
			_, err = c.DropIndex("i")
		case 11:
			_, err = d.Collection("a")
		default:
			_, err = d.Collection("b")
		}
		sym.Assert(err == document.ErrAlreadyClosed, "every operation on a closed database is refused")
	}
	sym.Assert(txn.Commit() == nil, "committing succeeds")
	sym.Assert(sameStore(before, db.Dump()), "nothing is written after closing")
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

func sameStore(a, b []store.Ent) bool {
	if len(a) != len(b) {
		return false
	}
	for _, e := range a {
		v, ok := store.Has(b, e.Key)
		if !ok || string(v) != string(e.Val) {
			return false
		}
	}
	return true
}

// An opening that fails reports an error; a later one succeeds and finds everything.
func C21_Fault() {
	db := store.Open()
	d := document.NewDB(db)
	m := &ideal{}
	if flip("existing") {
		c, err := d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
		m.put(9, 9)
		_, err = c.UpsertOne(9, mkdoc(9), nil)
		sym.Assert(err == nil, "upserting succeeds")
		_, err = c.CreateIndex(document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
		sym.Assert(err == nil, "creating an index succeeds")
		_, err = c.CreateIndex(document.IndexDefinition{Name: "j", Fields: []document.IndexField{{Name: "q"}}})
		sym.Assert(err == nil, "creating an index succeeds")
	}
	nix := len(m.did) * 2
	var others []string
	if flip("ids used up") {
		n := 50
		if nix > 0 {
			n--
		}
		for i := 0; i < n; i++ {
			others = append(others, string([]byte{'x', 'A' + byte(i)}))
			_, err := d.Collection(others[i])
			sym.Assert(err == nil, "opening succeeds")
		}
	}
	if flip("reopen") {
		if flip("failing") {
			db.All(1)
		}
		d = document.NewDB(db)
	}
	if !db.F.Armed {
		db.All(1)
	}
	c, err := d.Collection("a")
	if db.Off() > 0 {
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "opening succeeds")
	}
	if err == nil {
		// what is opened after all can be relied upon
		_, err = c.UpsertOne(7, mkdoc(7), nil)
		sym.Assert(err == nil, "upserting succeeds")
		m.put(7, 7)
	}
	if err == nil && flip("crash") {
		d, c = document.NewDB(db), nil
	}
	c2, err2 := d.Collection("a")
	sym.Assert(err2 == nil, "a failed opening does not prevent a later one from succeeding")
	if err == nil && c != nil {
		sym.Assert(c2 == c, "one shared object per open database")
	}
	sym.Assert(len(c2.GetIndexes()) == nix, "a collection opened later has all its indexes")
	o, err := d.Collection("b")
	sym.Assert(err == nil, "opening succeeds")
	_, err = o.UpsertOne(9, mkdoc(5), nil)
	sym.Assert(err == nil, "upserting succeeds")
	m.check(c2, nil)
	if flip("restart") {
		d = document.NewDB(db)
		c2, err = d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
		m.check(c2, nil)
	}
	for _, s := range others {
		c, err := d.Collection(s)
		sym.Assert(err == nil, "opening succeeds")
		n, err := c.Count(nil)
		sym.Assert(err == nil && n == 0, "a collection is not affected by operations on others")
	}
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Two open databases on one store open the same new names: whoever succeeds gets the
// same collection, different names get different ones, now and after a restart.
//
//sym:opt secs=60
func C21_TwoDBs() {
	one := flip("one name")
	n := pick(2, 3)
	again(func(int) {
		db := store.Open()
		var c [2]*document.Collection
		var e [2]error
		var ds [2]*document.DB
		ns := []string{"a", "b"}
		if one {
			ns[1] = "a"
		}
		for i := range ds {
			ds[i] = document.NewDB(db)
		}
		sym.Interleave(n)
		together(func() { c[0], e[0] = ds[0].Collection(ns[0]) }, func() { c[1], e[1] = ds[1].Collection(ns[1]) })
		sym.Interleave(0)
		ms := []*ideal{{}, {}}
		if one {
			ms[1] = ms[0]
		}
		for i := range c {
			if e[i] != nil {
				continue
			}
			_, err := c[i].UpsertOne(int64(50+i), mkdoc(int64(i)), nil)
			sym.Assert(err == nil, "upserting succeeds")
			ms[i].put(int64(50+i), int64(i))
		}
		for k := 0; k < 2; k++ {
			for i := range c {
				if k == 1 {
					ds[i] = document.NewDB(db)
				}
				x, err := ds[i].Collection(ns[i])
				sym.Assert(err == nil, "a failed opening does not prevent a later one from succeeding")
				ms[i].check(x, nil)
			}
		}
		sym.Cover("end")
	})
}

// An operation racing with the close either takes effect before the close returns or is
// refused without effect.
//
//sym:opt secs=60
func C21_Race() {
	op := sym.Choice("op", 9)
	n := pick(2, 3)
	again(func(int) { closeRace(op, n) })
}

func closeRace(op, switches int) {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	_, err = c.UpsertOne(1, mkdoc(0), nil)
	sym.Assert(err == nil, "upserting succeeds")
	_, err = c.CreateIndex(document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
	sym.Assert(err == nil, "creating an index succeeds")
	done := make(chan error, 1)
	sym.Interleave(switches)
	go func() {
		var err error
		switch op {
		case 0:
			_, err = c.InsertOne(mkdoc(1), nil)
		case 1:
			_, err = c.UpsertOne(7, mkdoc(1), nil)
		case 2:
			err = c.DeleteOne(1, nil)
		case 3:
			_, err = c.CreateIndex(document.IndexDefinition{Name: "j", Fields: []document.IndexField{{Name: "q"}}})
		case 4:
			_, err = c.DeleteAll(nil)
		case 5:
			_, err = c.UpdateOne(1, mkdoc(2), nil)
		case 6:
			err = c.InsertOneManaged(8, mkdoc(2), nil)
		case 7:
			_, err = c.DropIndex("i")
		default:
			_, err = d.Collection("b")
		}
		done <- err
	}()
	sym.Yield("close")
	d.Close()
	before := db.Dump()
	sym.Yield("closed")
	err = <-done
	sym.Assert(sameStore(before, db.Dump()), "nothing is written after closing")
	if err != nil {
		sym.Cover("refused")
	} else {
		sym.Cover("done")
	}
	_, err = d.Collection("a")
	sym.Assert(err == document.ErrAlreadyClosed, "every operation on a closed database is refused")
}

// Many collections, with long names that begin alike, opened in turn and all still there
// after a close or a crash.
//
//sym:opt secs=60 steps=60000000
func C21_Many() {
	db := store.Open()
	d := document.NewDB(db)
	n := []int{9, 20, 70, 120}[sym.Choice("n", pick(3, 4))]
	size := []int{1, 33, 130}[sym.Choice("size", 3)]
	name := func(i int) string { return longName("", 'n', size, 0) + string([]byte{byte(i)}) }
	objs, ms := make([]*document.Collection, n), make([]ideal, n)
	open := func(i int) *document.Collection {
		c, err := d.Collection(name(i))
		sym.Assert(err == nil, "opening succeeds")
		sym.Assert(objs[i] == nil || objs[i] == c, "one shared object per open database")
		objs[i] = c
		return c
	}
	for i := 0; i < n; i++ {
		c := open(i)
		sym.Assert(i == 0 || c != objs[i-1], "different names are different collections")
		did, err := c.InsertOne(mkdoc(int64(i)), nil)
		sym.Assert(err == nil, "inserting succeeds")
		ms[i].put(did, int64(i))
	}
	v := sym.Int64("v")
	for _, i := range []int{0, n / 2, n - 1} {
		_, err := open(i).UpsertOne(100, mkdoc(v), nil)
		sym.Assert(err == nil, "upserting succeeds")
		ms[i].put(100, v)
	}
	for i := range objs {
		ms[i].check(open(i), nil)
	}
	if flip("cleanly") {
		d.Close()
	}
	d = document.NewDB(db)
	objs = make([]*document.Collection, n)
	for i := range objs {
		i = n - 1 - i
		ms[i].check(open(i), nil)
	}
	for i := range objs {
		open(i)
	}
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}
