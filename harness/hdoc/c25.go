package hdoc

import (
	"context"
	"encoding/json"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// anyDB is a database of an arbitrary shape; ids start at id.
func anyDB(id int64, name string) *model.DBInfo {
	d := &model.DBInfo{ID: id, Name: name, Collections: map[string]*model.CollectionInfo{}, State: public}
	for i := sym.Choice("collections", 3); i > 0; i-- {
		n := []string{"", "a", "b"}[i]
		id++
		ci := &model.CollectionInfo{ID: id, Name: n, Indices: map[string]*model.IndexInfo{}, State: public}
		if flip("indexed") {
			id++
			ci.Indices["i"] = &model.IndexInfo{ID: id, Name: "i", Columns: []string{n + "p", "q"}, Unique: i == 1, State: public}
			ci.IndexOrder = []string{"i"}
		}
		d.Collections[n] = ci
		d.CollectionOrder = append(d.CollectionOrder, n)
	}
	return d
}

// created is the recorded change for the creation of d.
func created(v int64, d *model.DBInfo) *model.SchemaDiff {
	raw, err := json.Marshal(d)
	sym.Assert(err == nil, "encoding succeeds")
	diff := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, RawArg: raw}
	for _, c := range d.Collections {
		diff.CollectionIDs = append(diff.CollectionIDs, c.ID)
	}
	return diff
}

var cacheNames = []string{"D0", "D1", "D2", "D3", "D4", "D5", "u", "v", "w", "x", "y", "z"}

// sameCache asserts that two caches show the same.
func sameCache(a, b *schema.MetaCache) {
	sym.Assert(a.Version() == b.Version(), "the refreshed schema has the version of the store")
	for _, d := range cacheNames {
		sym.Assert(a.CheckDBExists(d) == b.CheckDBExists(d), "the refreshed schema shows the stored databases")
		for _, c := range []string{"a", "b", "c"} {
			sym.Assert(a.CheckCollectionExists(d, c) == b.CheckCollectionExists(d, c), "the refreshed schema shows the stored collections")
			sym.Assert(sameColl(a.CollectionInfo(d, c), b.CollectionInfo(d, c)), "the refreshed schema shows every collection as stored")
			for _, i := range []string{"i", "j"} {
				sym.Assert(a.CheckIndexExists(d, c, i) == b.CheckIndexExists(d, c, i), "the refreshed schema shows the stored indexes")
			}
		}
	}
}

func copies(ds []*model.DBInfo) (r []*model.DBInfo) {
	for _, d := range ds {
		r = append(r, d.Clone())
	}
	return
}

// Databases of arbitrary shape created one after the other; a cache loaded at an
// arbitrary version and refreshed in arbitrary batches shows the same as one loaded at
// the end. Every earlier cache and the source of the first one stay as they were.
//
//sym:opt secs=100
func C25_Batches() {
	n := pick(3, 4)
	v0 := int64(sym.Uint32("version"))
	var ds []*model.DBInfo
	for i := 0; i < n; i++ {
		ds = append(ds, anyDB(int64(100*(i+1)), cacheNames[i]))
	}
	start := sym.Choice("loaded", n+1)
	src := copies(ds[:start])
	caches := []*schema.MetaCache{schema.NewMetaCache(v0+int64(start), src)}
	at := []int{start}
	for _, d := range src { // the loaded values are the cache's own
		d.Name = "other"
		for _, c := range d.Collections {
			c.State = 0
			c.IndexOrder = append(c.IndexOrder, "other")
			for _, i := range c.Indices {
				i.Columns[0] = "other"
			}
		}
		d.Collections["c"] = &model.CollectionInfo{Name: "c", ID: 1}
	}
	for pos := start; pos < n; {
		k := 1 + sym.Choice("batch", n-pos)
		var diffs []*model.SchemaDiff
		for i := pos; i < pos+k; i++ {
			diffs = append(diffs, created(v0+int64(i+1), ds[i]))
		}
		pos += k
		c := caches[len(caches)-1].Clone()
		sym.Assert(c.ApplyDiffs(diffs) == nil, "applying consecutive changes succeeds")
		for _, d := range diffs { // and so are the applied changes
			for i := range d.CollectionIDs {
				d.CollectionIDs[i] = -1
			}
		}
		caches, at = append(caches, c), append(at, pos)
	}
	for i, c := range caches {
		sameCache(c, schema.NewMetaCache(v0+int64(at[i]), copies(ds[:at[i]])))
		for j, d := range ds {
			there := j < at[i]
			sym.Assert(c.CheckDBExists(d.Name) == there, "exactly the databases created so far are shown")
			for _, n := range []string{"a", "b", "c"} {
				ci := d.Collections[n]
				sym.Assert(c.CheckCollectionExists(d.Name, n) == (there && ci != nil), "exactly the collections created so far are shown")
				sym.Assert(c.CheckIndexExists(d.Name, n, "i") == (there && ci != nil && len(ci.Indices) > 0), "exactly the indexes created so far are shown")
				sym.Assert(!c.CheckIndexExists(d.Name, n, "j"), "exactly the indexes created so far are shown")
			}
		}
	}
	// the history kept along the way
	h := schema.NewHandle()
	sym.Assert(h.Update(context.Background(), caches[len(caches)-1]) == nil, "updating the schema succeeds")
	for i, c := range caches[:len(caches)-1] {
		for j, d := range ds {
			for _, ci := range d.Collections {
				ok, err := h.Check(context.Background(), c, map[int64]struct{}{ci.ID: {}})
				sym.Assert(err == nil && ok == (j < at[i]), "the change history says which versions touched which collections")
			}
		}
		ok, err := h.Check(context.Background(), c, map[int64]struct{}{-1: {}})
		sym.Assert(err == nil && ok, "the change history says which versions touched which collections")
	}
	if start < n {
		sym.Cover("refreshed")
	}
	sym.Cover("end")
}

// Lists of changes that do not continue the cache's version, or are not consecutive, are
// rejected, and the cache is as it was and accepts the right list afterwards.
func C25_Reject() {
	v0 := int64(sym.Uint32("version"))
	c := schema.NewMetaCache(v0, []*model.DBInfo{anyDB(100, "D0")})
	want := []*model.DBInfo{c2db(c, "D0")}
	if flip("refreshed once") {
		v0++
		d := anyDB(200, "D1")
		sym.Assert(c.ApplyDiffs([]*model.SchemaDiff{created(v0, d)}) == nil, "applying consecutive changes succeeds")
		want = append(want, d)
	}
	n := 1 + sym.Choice("changes", pick(3, 4))
	var diffs []*model.SchemaDiff
	good := true
	for i := 0; i < n; i++ {
		v := int64(sym.Uint32("v"))
		good = sym.And(good, v == v0+int64(i+1))
		diffs = append(diffs, created(v, dbOf(int64(1000*(i+1)), cacheNames[2+i], map[string]int64{"a": int64(1000*(i+1) + 1)})))
	}
	kept := c.Clone()
	err := c.ApplyDiffs(diffs)
	if good {
		sym.Assert(err == nil, "applying consecutive changes succeeds")
		sym.Assert(c.Version() == v0+int64(n), "the refreshed schema has the version of the store")
		sym.Cover("good")
		return
	}
	sym.Assert(err != nil, "changes that are not consecutive are rejected")
	sameCache(c, kept)
	sameCache(c, schema.NewMetaCache(v0, want))
	sym.Assert(c.ApplyDiffs([]*model.SchemaDiff{created(v0+1, dbOf(9000, "z", nil))}) == nil, "a rejected list does not prevent the right one")
	sym.Assert(c.CheckDBExists("z") && c.Version() == v0+1, "a rejected list does not prevent the right one")
	sym.Cover("rejected")
}

// c2db reads a database back from a cache.
func c2db(c *schema.MetaCache, name string) *model.DBInfo {
	d := &model.DBInfo{Name: name, Collections: map[string]*model.CollectionInfo{}}
	for _, n := range []string{"a", "b"} {
		if ci := c.CollectionInfo(name, n); ci != nil {
			d.Collections[n] = ci.Clone()
		}
	}
	return d
}

// More changes than the retained history holds, in batches around its bound: a
// transaction is checked exactly when its start version is still covered, and the most
// recent versions always are.
//
//sym:opt steps=30000000
func C25_Bound() {
	total := 98 + sym.Choice("changes", 6)
	cut := 1 + sym.Choice("second batch", 4)
	h := schema.NewHandle()
	c := schema.NewMetaCache(7, nil)
	starts := []*schema.MetaCache{c}
	cids := map[int64]int64{} // version -> collection
	add := func(from, n int) {
		next := starts[len(starts)-1].Clone()
		var diffs []*model.SchemaDiff
		for i := 0; i < n; i++ {
			v := int64(8 + from + i)
			cids[v] = 5000 + v
			diffs = append(diffs, change(v, 5000+v))
		}
		sym.Assert(next.ApplyDiffs(diffs) == nil, "applying consecutive changes succeeds")
		starts = append(starts, next)
	}
	first := sym.Choice("first batch", 5)
	if first > 0 {
		add(0, first)
	}
	add(first, total-first-cut)
	add(total-cut, cut)
	last := starts[len(starts)-1]
	sym.Assert(last.Version() == int64(7+total), "the refreshed schema has the version of the store")
	sym.Assert(h.Update(context.Background(), last) == nil, "updating the schema succeeds")
	for _, s := range starts {
		behind := int(last.Version() - s.Version())
		for _, cid := range []int64{0, 5000 + s.Version(), 5000 + s.Version() + 1, 5000 + last.Version()} {
			ok, err := h.Check(context.Background(), s, map[int64]struct{}{cid: {}})
			touched := cid > 5000+s.Version() && cid <= 5000+last.Version()
			sym.Assert(err == nil, "checking succeeds")
			if touched {
				sym.Assert(!ok, "a change of a used collection is seen")
			} else if behind <= 100 {
				sym.Assert(ok, "the history covers the most recent versions")
			} else {
				sym.Assert(!ok, "a transaction the history does not reach back to is refused")
				sym.Cover("beyond")
			}
		}
	}
	sym.Cover("end")
}

// cacheOf is the schema a domain currently uses.
func cacheOf(do *domain.Domain, name string) *schema.MetaCache {
	d, err := do.DB(name)
	sym.Assert(err == nil, "a created database can be opened")
	t := d.Txn(false)
	defer t.Discard()
	return t.StartMetaCache()
}

func createIn(do *domain.Domain, in ddl.CreateSchemaInput) (*model.Job, error) {
	return do.DDL().CreateSchema(context.Background(), in)
}

// stored is the schema a full load of the store gives.
func stored(db mondis.KVDB) *schema.MetaCache {
	c := readCatalog(db)
	return schema.NewMetaCache(c.version, c.dbs)
}

// Two domains on one store create databases of arbitrary shape in an arbitrary order:
// after each creation the domain that ran the job shows exactly what a full load shows,
// although it refreshes in batches of one or several recorded changes, and the caches it
// had before stay as they were.
//
//sym:opt secs=60
func C25_Domain() {
	db := store.Open()
	var do [2]*domain.Domain
	for i := range do {
		do[i] = domain.NewDomain(db)
		sym.Assert(do[i].Init() == nil, "starting succeeds")
	}
	type kept struct{ cache, want *schema.MetaCache }
	var ks []kept
	n := pick(4, 5)
	for i := 0; i < n; i++ {
		who := sym.Choice("domain", 2)
		in := ddl.CreateSchemaInput{DB: cacheNames[len(cacheNames)-1-i], Collections: []string{"a"}}
		switch sym.Choice("shape", 3) {
		case 1:
			in.Indices = map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}, Unique: true}}}
		case 2:
			in.Collections = []string{"b", "a", "c"}
			in.Indices = map[string][]ddl.IndexInfo{"c": {{Name: "j", Columns: []string{"p", "q"}}}}
		}
		_, err := createIn(do[who], in)
		sym.Assert(err == nil, "creating a schema succeeds")
		if _, err = do[who].DB(in.DB); err != nil {
			// the other domain's worker happened to take the job
			who = 1 - who
			sym.Cover("other worker")
		}
		c := cacheOf(do[who], in.DB)
		sameCache(c, stored(db))
		touches(db, c.Version(), in.DB)
		ks = append(ks, kept{c, stored(db)})
	}
	for _, k := range ks {
		sameCache(k.cache, k.want)
	}
	for _, cid := range allIDs(readCatalog(db)) {
		dropSeq(cid)
	}
	sym.Cover("end")
}

// The changes recorded while an index is added can be applied like all others.
//
//sym:opt steps=3000000
func C25_AddIndex() {
	db := store.Open()
	p := &process{db: &store.DB{Inner: db.Inner, F: &store.Faults{}}}
	adding := false
	p.d = ddl.New(p.db, ddl.Options{Callback: ddl.Callback{OnChanged: func(error) {
		if adding {
			p.db.Hang()
		}
	}}})
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	_, err := create(p.d, ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}})
	sym.Assert(err == nil, "creating a schema succeeds")
	time.Sleep(2 * time.Second)
	cache := stored(db)
	before := cache.Version()
	adding = true
	go p.d.AddIndex(context.Background(), ddl.AddIndexInput{DB: "x", Collection: "a", IndexInfo: ddl.IndexInfo{Name: "i", Columns: []string{"p"}}})
	time.Sleep(5 * time.Second)
	t := db.NewTransaction(false)
	defer t.Discard()
	diff, err := meta.NewMeta(t).GetSchemaDiff(before + 1)
	sym.Assert(err == nil && diff != nil && diff.Version == before+1, "the change is recorded")
	sym.Assert(cache.ApplyDiffs([]*model.SchemaDiff{diff}) == nil, "the changes recorded while adding an index can be applied")
	sym.Assert(cache.CheckIndexExists("x", "a", "i"), "the refreshed schema shows the stored indexes")
	sym.Cover("end")
}

// touches checks that the change recorded for version names exactly the collections of
// database name.
func touches(db mondis.KVDB, version int64, name string) {
	t := db.NewTransaction(false)
	defer t.Discard()
	diff, err := meta.NewMeta(t).GetSchemaDiff(version)
	sym.Assert(err == nil && diff != nil && diff.Version == version, "the change is recorded")
	d, _ := readCatalog(db).db(name)
	sym.Assert(d != nil && len(diff.CollectionIDs) == len(d.Collections), "a recorded change names the collections it touches")
	named := map[int64]bool{}
	for _, id := range diff.CollectionIDs {
		named[id] = true
	}
	for _, c := range d.Collections {
		sym.Assert(named[c.ID], "a recorded change names the collections it touches")
	}
}

// A version that was generated without a recorded change cannot be refreshed to
// incrementally; the domain still shows what a full load shows.
//
//sym:opt secs=60
func C25_Unrecorded() {
	db := store.Open()
	do := domain.NewDomain(db)
	sym.Assert(do.Init() == nil, "starting succeeds")
	_, err := createIn(do, ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}})
	sym.Assert(err == nil, "creating a schema succeeds")
	gaps := 1 + sym.Choice("versions", 3)
	at := sym.Choice("at", 2)
	if at == 1 {
		gaps--
	}
	skip := func() {
		inTxn(db, true, func(m *meta.Meta) {
			_, err := m.GenSchemaVersion()
			sym.Assert(err == nil, "generating a version succeeds")
		})
	}
	for i := 0; i < gaps; i++ {
		skip()
	}
	if at == 1 { // changes before the gap are recorded
		other := &process{db: &store.DB{Inner: db.Inner, F: &store.Faults{}}}
		other.d = ddl.New(other.db, ddl.Options{})
		for _, cid := range allIDs(readCatalog(db)) {
			dropSeq(cid)
		}
		sym.Assert(other.d.Init() == nil, "starting succeeds")
		_, err = create(other.d, ddl.CreateSchemaInput{DB: "z", Collections: []string{"b"}})
		sym.Assert(err == nil, "creating a schema succeeds")
		skip()
	}
	_, err = createIn(do, ddl.CreateSchemaInput{DB: "y", Collections: []string{"b"}})
	sym.Assert(err == nil, "creating a schema succeeds")
	if at == 0 {
		c := cacheOf(do, "y")
		sameCache(c, stored(db))
	} else {
		time.Sleep(2 * time.Second)
	}
	for _, cid := range allIDs(readCatalog(db)) {
		dropSeq(cid)
	}
	sym.Cover("end")
}

// Copies of catalogue values are equal to the original and independent of it.
func C25_Clone() {
	d := &model.DBInfo{ID: sym.Int64("id"), Name: name("name", 1), Collections: map[string]*model.CollectionInfo{}, State: public}
	n := sym.Choice("collections", 4)
	for i := 0; i < n; i++ {
		c := &model.CollectionInfo{ID: sym.Int64("cid"), Name: string(byte('a' + i)), Indices: map[string]*model.IndexInfo{}, State: public}
		for j := sym.Choice("indexes", 3); j > 0; j-- {
			x := &model.IndexInfo{ID: sym.Int64("iid"), Name: string(byte('i' + j)), Unique: sym.Bool("unique"), State: public}
			for k := 0; k < 2*j; k++ {
				x.Columns = append(x.Columns, string(byte('p'+k)))
			}
			if flip("redundant") {
				x.JobRedundant = &model.IndexInfoRedundant{DB: "x", Collection: "y", CID: sym.Int64("rcid")}
			}
			c.Indices[x.Name] = x
			c.IndexOrder = append(c.IndexOrder, x.Name)
		}
		d.Collections[c.Name] = c
		d.CollectionOrder = append(d.CollectionOrder, c.Name)
	}
	e := d.Clone()
	sym.Assert(sameDB(e, d), "a copy equals the original")
	for n, c := range d.Collections {
		for i, x := range c.Indices {
			y := e.Collections[n].Indices[i]
			sym.Assert((x.JobRedundant == nil) == (y.JobRedundant == nil), "a copy equals the original")
			if x.JobRedundant != nil {
				sym.Assert(*x.JobRedundant == *y.JobRedundant && x.JobRedundant != y.JobRedundant, "a copy is independent of the original")
			}
		}
	}
	f := e.Clone()
	for n, c := range e.Collections {
		for i, x := range c.Indices {
			for k := range x.Columns {
				x.Columns[k] = "other"
			}
			x.Name, x.State = "other", 0
			delete(c.Indices, i)
		}
		for k := range c.IndexOrder {
			c.IndexOrder[k] = "other"
		}
		c.Name, c.ID = "other", -1
		delete(e.Collections, n)
	}
	for k := range e.CollectionOrder {
		e.CollectionOrder[k] = "other"
	}
	sym.Assert(sameDB(f, d), "a copy is independent of the original")
	sym.Cover("end")
}

// Long histories refreshed in batches of many changes.
//
//sym:opt steps=60000000 secs=60
func C25_Batched() {
	h := schema.NewHandle()
	c := schema.NewMetaCache([]int64{0, 7, 1 << 40}[sym.Choice("begin", 3)], nil)
	base := c.Version()
	starts := []*schema.MetaCache{c}
	sizes := []int{1, 7, 50, 99, 100, 101, 107, 160, 300}
	for k := 0; k < pick(2, 3); k++ {
		next := starts[k].Clone()
		var diffs []*model.SchemaDiff
		n := sizes[sym.Choice("batch", len(sizes))]
		for i := 0; i < n; i++ {
			v := next.Version() + 1 + int64(i)
			diffs = append(diffs, change(v, 5000+v))
		}
		sym.Assert(next.ApplyDiffs(diffs) == nil, "applying consecutive changes succeeds")
		sym.Assert(next.Version() == starts[k].Version()+int64(n), "the refreshed schema has the version of the store")
		starts = append(starts, next)
	}
	last := starts[len(starts)-1]
	sym.Assert(h.Update(context.Background(), last) == nil, "updating the schema succeeds")
	for _, s := range starts {
		behind := last.Version() - s.Version()
		for _, cid := range []int64{0, 5000 + s.Version(), 5000 + s.Version() + 1, 5000 + (s.Version()+last.Version())/2, 5000 + last.Version() - 99, 5000 + last.Version()} {
			ok, err := h.Check(context.Background(), s, map[int64]struct{}{cid: {}})
			sym.Assert(err == nil, "checking succeeds")
			switch {
			case cid > 5000+s.Version() && cid <= 5000+last.Version():
				sym.Assert(!ok, "a change of a used collection is seen")
			case behind <= 100:
				sym.Assert(ok, "the history covers the most recent versions")
			default:
				sym.Assert(!ok, "a transaction the history does not reach back to is refused")
				sym.Cover("beyond")
			}
		}
	}
	sym.Assert(base == starts[0].Version(), "a refresh leaves the old schema alone")
	sym.Cover("end")
}

// The change recorded for a schema of many collections and indexes gives what a full load
// gives.
//
//sym:opt secs=60 steps=60000000
func C25_Wide() {
	db := store.Open()
	do := domain.NewDomain(db)
	sym.Assert(do.Init() == nil, "starting succeeds")
	_, err := createIn(do, ddl.CreateSchemaInput{DB: "first", Collections: []string{"a"}})
	sym.Assert(err == nil, "creating a schema succeeds")
	old := cacheOf(do, "first")
	n := []int{9, 33, 70}[sym.Choice("n", 3)]
	in := ddl.CreateSchemaInput{DB: "wide", Indices: map[string][]ddl.IndexInfo{}}
	name := func(i int) string { return string([]byte{'c', '0' + byte(i)}) }
	at := sym.Choice("at", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		in.Collections = append(in.Collections, name(i))
		if i%3 == 1 || i == at {
			for k := 0; k < 1+i%11; k++ {
				in.Indices[name(i)] = append(in.Indices[name(i)], ddl.IndexInfo{Name: name(k), Columns: []string{"p", name(k)}, Unique: k%2 == 0})
			}
		}
	}
	_, err = createIn(do, in)
	sym.Assert(err == nil, "creating a schema succeeds")
	c, full := cacheOf(do, "wide"), stored(db)
	sym.Assert(c.Version() == full.Version(), "the refreshed schema has the version of the store")
	for i := 0; i <= n; i++ {
		a, b := c.CollectionInfo("wide", name(i)), full.CollectionInfo("wide", name(i))
		sym.Assert((a != nil) == (i < n) && sameColl(a, b), "an incremental refresh shows what a full load shows")
		if i < n {
			for k := 0; k < 12; k++ {
				sym.Assert(c.CheckIndexExists("wide", name(i), name(k)) == (b.Indices[name(k)] != nil), "an incremental refresh shows what a full load shows")
			}
		}
	}
	touches(db, c.Version(), "wide")
	sym.Assert(!old.CheckDBExists("wide") && old.Version() == c.Version()-1, "a refresh leaves the old schema alone")
	for _, cid := range allIDs(readCatalog(db)) {
		dropSeq(cid)
	}
	sym.Cover("end")
}
