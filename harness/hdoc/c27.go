package hdoc

import (
	"context"
	"time"

	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// anyRequest is a request with up to max collection names (repeats included), and up to
// two indexes on each name.
func anyRequest(db string, max int) ddl.CreateSchemaInput {
	in := ddl.CreateSchemaInput{DB: db, Indices: map[string][]ddl.IndexInfo{}}
	names := []string{"a", "b"}
	used := map[string]bool{}
	for i := sym.Choice("collections", max+1); i > 0; i-- {
		n := names[sym.Choice("collection", 2)]
		in.Collections = append(in.Collections, n)
		used[n] = true
	}
	for _, n := range names {
		if !used[n] {
			continue
		}
		for i := sym.Choice("indexes", 3); i > 0; i-- {
			in.Indices[n] = append(in.Indices[n], ddl.IndexInfo{
				Name: []string{"", "i", "j"}[i], Columns: []string{"p", "q"}[:i], Unique: i == 1})
		}
	}
	return in
}

func copyRequest(in ddl.CreateSchemaInput) ddl.CreateSchemaInput {
	r := ddl.CreateSchemaInput{DB: in.DB, Collections: append([]string(nil), in.Collections...), Indices: map[string][]ddl.IndexInfo{}}
	for n, l := range in.Indices {
		for _, x := range l {
			r.Indices[n] = append(r.Indices[n], ddl.IndexInfo{Name: x.Name, Columns: append([]string(nil), x.Columns...), Unique: x.Unique})
		}
	}
	return r
}

// One request of any shape, a second schema, and an id allocated afterwards: all ids are
// different and the schema is exactly what was requested.
//
//sym:opt secs=100
func C27_Shapes() {
	db := store.Open()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	in := anyRequest("x", pick(3, 4))
	asked := copyRequest(in)
	job, err := create(p.d, in)
	sym.Assert(err == nil, "a valid request succeeds")
	in2 := ddl.CreateSchemaInput{DB: "y", Collections: []string{"a"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}}
	job2, err := create(p.d, in2)
	sym.Assert(err == nil, "a valid request succeeds")
	c := readCatalog(db)
	ids := append(c.expect(asked), c.expect(in2)...)
	ids = append(ids, job.ID, job2.ID)
	t := db.NewTransaction(true)
	id, err := meta.NewMeta(t).GenGlobalID()
	sym.Assert(err == nil && t.Commit() == nil, "allocating an id succeeds")
	distinct(append(ids, id))
	sym.Assert(len(c.dbs) == 2, "nothing else is created")
	p.die(allIDs(c)...)
	sym.Cover("end")
}

// A request with many collections and many indexes of many columns, between two other
// schemas: everything is there as requested and has an id of its own.
//
//sym:opt secs=60 steps=30000000
func C27_Many() {
	db := store.Open()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	before := ddl.CreateSchemaInput{DB: "w", Collections: []string{"a"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}}
	if flip("an empty database first") {
		before.Collections, before.Indices = nil, nil
	}
	job1, err := create(p.d, before)
	sym.Assert(err == nil, "a valid request succeeds")
	in := ddl.CreateSchemaInput{DB: "x", Indices: map[string][]ddl.IndexInfo{}}
	nc := []int{1, 2, 5, 30}[sym.Choice("collections", pick(3, 4))]
	ni := []int{1, 3, 5, 9, 40}[sym.Choice("indexes", pick(4, 5))]
	columns := []int{1, 2, 3, 12}[sym.Choice("columns", 4)]
	last := sym.Choice("which", 3) // which collections have indexes
	for i := 0; i < nc; i++ {
		n := "c" + string(rune('0'+i))
		in.Collections = append(in.Collections, n)
		if last == 1 && i < nc-1 || last == 2 && i > 0 {
			continue
		}
		for k := 0; k < ni; k++ {
			x := ddl.IndexInfo{Name: "i" + string(rune('0'+k)), Unique: sym.Bool("unique")}
			for l := 0; l < columns; l++ {
				x.Columns = append(x.Columns, "f"+string(rune('0'+l)))
			}
			in.Indices[n] = append(in.Indices[n], x)
		}
	}
	asked := copyRequest(in)
	job2, err := create(p.d, in)
	sym.Assert(err == nil, "a valid request succeeds")
	after := ddl.CreateSchemaInput{DB: "y", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{"b": {{Name: "i", Columns: []string{"p"}}}}}
	job3, err := create(p.d, after)
	sym.Assert(err == nil, "a valid request succeeds")
	c := readCatalog(db)
	ids := append(append(c.expect(before), c.expect(asked)...), c.expect(after)...)
	t := db.NewTransaction(true)
	id, err := meta.NewMeta(t).GenGlobalID()
	sym.Assert(err == nil && t.Commit() == nil, "allocating an id succeeds")
	distinct(append(ids, job1.ID, job2.ID, job3.ID, id))
	sym.Assert(len(c.dbs) == 3, "nothing else is created")
	p.die(allIDs(c)...)
	sym.Cover("end")
}

// The same index name given more than once for a collection: whatever becomes of it, the
// names are the requested ones and no id is given out twice.
func C27_Repeats() {
	db := store.Open()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{}}
	names := map[string]bool{}
	for i := 1 + sym.Choice("indexes", pick(3, 4)); i > 0; i-- {
		n := []string{"i", "j"}[sym.Choice("index", 2)]
		in.Indices["a"] = append(in.Indices["a"], ddl.IndexInfo{Name: n, Columns: []string{"p", "q"}[:1+sym.Choice("columns", 2)], Unique: sym.Bool("unique")})
		names[n] = true
	}
	in.Indices["b"] = append(in.Indices["b"], ddl.IndexInfo{Name: "i", Columns: []string{"p"}})
	job, err := create(p.d, in)
	var ids []int64
	if err == nil {
		d, _ := readCatalog(db).db("x")
		sym.Assert(d != nil && len(d.Collections) == 2 && d.Collections["a"] != nil && d.Collections["b"] != nil, "the created schema contains exactly the requested collections")
		sym.Assert(len(d.Collections["a"].Indices) == len(names) && len(d.Collections["b"].Indices) == 1, "the created schema contains exactly the requested indexes")
		ids = append(ids, job.ID, d.ID)
		for _, ci := range d.Collections {
			ids = append(ids, ci.ID)
			for n, x := range ci.Indices {
				sym.Assert((names[n] || ci.Name == "b") && x.Name == n, "the created schema contains exactly the requested indexes")
				ids = append(ids, x.ID)
			}
		}
		sym.Cover("created")
	}
	in2 := ddl.CreateSchemaInput{DB: "y", Collections: []string{"a"}}
	job2, err := create(p.d, in2)
	sym.Assert(err == nil, "a valid request succeeds")
	c := readCatalog(db)
	distinct(append(append(ids, c.expect(in2)...), job2.ID))
	p.die(allIDs(c)...)
	sym.Cover("end")
}

func allIDs(c *catalog) (ids []int64) {
	for _, d := range c.dbs {
		for _, x := range d.Collections {
			ids = append(ids, x.ID)
		}
	}
	return
}

// Requests that are invalid, name an existing database or meet a full queue change
// nothing.
func C27_Refused() {
	db := store.Open()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	first := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}}
	if flip("empty") {
		first.Collections = nil
	}
	job, err := create(p.d, first)
	sym.Assert(err == nil, "a valid request succeeds")
	in := ddl.CreateSchemaInput{DB: "y", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{
		"a": {{Name: "i", Columns: []string{"p"}}}}}
	switch sym.Choice("why", 7) {
	case 0:
		in.DB = ""
	case 1:
		in.Collections[sym.Choice("which", 2)] = ""
	case 2:
		in.Indices["a"][0].Name = ""
	case 3:
		in.Indices["a"][0].Columns = nil
	case 4:
		in.DB = "x"
	case 5:
		in.Indices["c"] = []ddl.IndexInfo{{Name: "i", Columns: []string{"p"}}}
	default:
		p.die(allIDs(readCatalog(db))...)
		p = newProcess(db.Inner) // no workers: jobs stay in the queue
		t := db.NewTransaction(true)
		for i := 0; i < 101; i++ {
			sym.Assert(meta.NewMeta(t).EnQueueDDLJob(&model.Job{ID: 1000 + int64(i), Type: model.ActionDropSchema}) == nil, "queueing succeeds")
		}
		sym.Assert(t.Commit() == nil, "queueing succeeds")
		sym.Cover("full")
	}
	before := db.Dump()
	j, err := create(p.d, in)
	sym.Assert(err != nil && j == nil, "the request is refused")
	_ = job
	sym.Assert(sameStore(before, db.Dump()), "a refused request creates nothing")
	sym.Cover("end")
}

// One failing storage call anywhere: if the request is reported as successful the schema
// is complete, if the request itself was refused nothing was created, and the next
// schema gets ids of its own.
//
//sym:opt secs=100
func C27_Fault() {
	db := store.Open()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}}
	p.db.All(1)
	job, err := create(p.d, in)
	hit := p.db.Off()
	c := readCatalog(db)
	var ids []int64
	if err == nil {
		ids = c.expect(in)
		if hit > 0 {
			sym.Cover("survived")
		}
	} else {
		sym.Assert(hit > 0, "a valid request succeeds")
		d, _ := c.db("x")
		sym.Assert(d == nil, "a failed request creates nothing")
		sym.Cover("failed")
	}
	in2 := ddl.CreateSchemaInput{DB: "y", Collections: []string{"a"}}
	job2, err := create(p.d, in2)
	sym.Assert(err == nil, "a valid request succeeds")
	c = readCatalog(db)
	ids = append(append(ids, c.expect(in2)...), job2.ID)
	if job != nil {
		ids = append(ids, job.ID)
	}
	distinct(ids)
	p.die(allIDs(c)...)
	sym.Cover("end")
}

// Indexes requested for existing collections: the ids of the requests and of
// the indexes differ from every other one, each request says what was asked, and a
// request for something that is missing or there already queues nothing.
//
//sym:opt secs=60
func C27_AddIndex() {
	db := store.Open()
	p := &process{db: &store.DB{Inner: db.Inner, F: &store.Faults{}}}
	p.d = ddl.New(p.db, ddl.Options{Callback: ddl.Callback{OnChanged: func(error) {
		if len(readCatalog(db).queue) == 0 {
			select {} // the worker stops after its first job
		}
	}}})
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}}
	job, err := create(p.d, in)
	sym.Assert(err == nil, "a valid request succeeds")
	ids := append(readCatalog(db).expect(in), job.ID)
	var asked []ddl.AddIndexInput
	var given []int64
	for i := 0; i < pick(2, 3); i++ {
		if flip("another id") {
			t := db.NewTransaction(true)
			id, err := meta.NewMeta(t).GenGlobalID()
			sym.Assert(err == nil && t.Commit() == nil, "allocating an id succeeds")
			ids = append(ids, id)
		}
		r := ddl.AddIndexInput{DB: []string{"x", "y"}[sym.Choice("db", 2)], Collection: []string{"a", "b", "c"}[sym.Choice("collection", 3)],
			IndexInfo: ddl.IndexInfo{Name: []string{"i", "j"}[sym.Choice("index", 2)], Columns: []string{"p", "q"}[:1+sym.Choice("columns", 2)], Unique: flip("unique")}}
		q := r
		q.IndexInfo.Columns = append([]string(nil), r.IndexInfo.Columns...)
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		j, err := p.d.AddIndex(ctx, q)
		cancel()
		if r.DB == "y" || r.Collection == "c" || r.Collection == "a" && r.IndexInfo.Name == "i" {
			sym.Assert(j == nil && err != nil, "a request for what is missing or there already is refused")
			sym.Cover("refused")
			continue
		}
		if j == nil {
			for _, a := range asked {
				sym.Assume(a.Collection == r.Collection && a.IndexInfo.Name == r.IndexInfo.Name)
			}
			continue
		}
		asked, given = append(asked, r), append(given, j.ID)
	}
	c := readCatalog(db)
	var jobs []*model.Job
	for _, j := range append(c.history, c.queue...) {
		if j.Type == model.ActionAddIndex {
			jobs = append(jobs, j)
		}
	}
	sym.Assert(len(jobs) == len(asked), "every accepted request is queued, and no other")
	for _, j := range jobs {
		var r ddl.AddIndexInput
		for i := range given {
			if given[i] == j.ID {
				r = asked[i]
			}
		}
		var x model.IndexInfo
		sym.Assert(j.DecodeArg(&x) == nil, "a queued request can be read")
		sym.Assert(x.Name == r.IndexInfo.Name && sameStrings(x.Columns, r.IndexInfo.Columns) && x.Unique == r.IndexInfo.Unique &&
			x.JobRedundant != nil && x.JobRedundant.DB == r.DB && x.JobRedundant.Collection == r.Collection, "a queued request is what was asked")
		ids = append(ids, j.ID, x.ID)
		sym.Cover("queued")
	}
	t := db.NewTransaction(true)
	id, err := meta.NewMeta(t).GenGlobalID()
	sym.Assert(err == nil && t.Commit() == nil, "allocating an id succeeds")
	distinct(append(ids, id))
	p.die(allIDs(c)...)
	sym.Cover("end")
}
