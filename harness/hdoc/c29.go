package hdoc

import (
	"context"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// running is one run of a domain on a store.
type running struct {
	db *store.DB
	do *domain.Domain
}

func boot(inner mondis.KVDB) *running {
	r := &running{db: &store.DB{Inner: inner, F: &store.Faults{}}}
	r.do = domain.NewDomain(r.db)
	return r
}

func mustBoot(inner mondis.KVDB) *running {
	r := boot(inner)
	sym.Assert(r.do.Init() == nil, "starting a domain succeeds")
	return r
}

// crash ends the run at once.
func (r *running) crash() {
	r.db.Hang()
	time.Sleep(100 * time.Millisecond)
	for _, cid := range allIDs(readCatalog(r.db.Inner)) {
		dropNow(cid)
	}
	time.Sleep(100 * time.Millisecond)
}

// part is a collection and what it has to contain.
type part struct {
	db, coll string
	m        *ideal
	a        *auto
}

func (r *running) open(p *part) *dml.Collection {
	d, err := r.do.DB(p.db)
	sym.Assert(err == nil, "a created database can be opened")
	c, err := d.Collection(p.coll)
	sym.Assert(err == nil, "a created collection can be opened")
	return c
}

func (r *running) insert(p *part) {
	v := sym.Int64("value")
	id, err := r.open(p).InsertOne(doc{v}, nil)
	sym.Assert(err == nil, "a created collection accepts documents")
	p.a.hand(id)
	p.m.put(id, v)
}

func (r *running) check(ps []*part) {
	for _, p := range ps {
		p.m.mcheck(r.open(p), nil)
	}
}

// parts are the collections of a request.
func parts(in ddl.CreateSchemaInput) (ps []*part) {
	for _, c := range in.Collections {
		dup := false
		for _, p := range ps {
			dup = dup || p.coll == c
		}
		if !dup {
			ps = append(ps, &part{in.DB, c, &ideal{}, &auto{}})
		}
	}
	return
}

// name is an arbitrary name of ASCII characters.
func name(what string, max int) string {
	b := []byte(str(what, max))
	sym.Assume(len(b) > 0)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

// Two schemas with arbitrary names, used at once, and again after a restart.
//
//sym:opt secs=100
func C29_Names() {
	inner := store.Open()
	r := mustBoot(inner)
	in := ddl.CreateSchemaInput{DB: name("db", 2)}
	for i := 1 + sym.Choice("collections", 2); i > 0; i-- {
		in.Collections = append(in.Collections, name("collection", 2))
	}
	_, err := createIn(r.do, in)
	sym.Assert(err == nil, "creating a schema succeeds")
	ps := parts(in)
	r.insert(ps[0])
	r.check(ps)
	in2 := ddl.CreateSchemaInput{DB: name("db", 2), Collections: []string{name("collection", 1)}}
	_, err = createIn(r.do, in2)
	if in2.DB == in.DB {
		sym.Assert(err != nil, "a second database of the same name is refused")
		sym.Cover("taken")
	} else {
		sym.Assert(err == nil, "creating a schema succeeds")
		p := parts(in2)
		ps = append(ps, p...)
		r.insert(p[0])
		sym.Cover("both")
	}
	r.check(ps)
	r.crash()
	r = mustBoot(inner)
	r.check(ps)
	for _, p := range ps {
		r.insert(p)
	}
	r.check(ps)
	_, err = createIn(r.do, in)
	sym.Assert(err != nil, "a database of the same name is refused after a restart")
	_, err = r.do.DB("absent")
	sym.Assert(err == dml.ErrDBNotExists, "a database that was not created cannot be opened")
	r.crash()
	sym.Cover("end")
}

// Creations, inserts and restarts in any order.
//
//sym:opt secs=100
func C29_History() {
	inner := store.Open()
	r := mustBoot(inner)
	ins := []ddl.CreateSchemaInput{
		{DB: "x", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}, {Name: "j", Columns: []string{"q"}}}, "b": {{Name: "i", Columns: []string{"p"}}}}},
		{DB: "y", Collections: []string{"a"}},
		{DB: "z"},
	}
	var ps []*part
	var have [3]bool
	for i := pick(5, 6); i > 0; i-- {
		switch op := sym.Choice("op", 5); op {
		case 0, 1:
			k := op + sym.Choice("empty", 2)*(2-op)
			_, err := createIn(r.do, ins[k])
			if have[k] {
				sym.Assert(err != nil, "a second database of the same name is refused")
				continue
			}
			sym.Assert(err == nil, "creating a schema succeeds")
			have[k] = true
			ps = append(ps, parts(ins[k])...)
			_, err = r.do.DB(ins[k].DB)
			sym.Assert(err == nil, "a created database can be opened")
		case 2, 3:
			if len(ps) <= op-2 {
				sym.Stop()
			}
			r.insert(ps[len(ps)-1-(op-2)])
		default:
			r.crash()
			r = mustBoot(inner)
			sym.Cover("restart")
		}
	}
	r.check(ps)
	for k, in := range ins {
		_, err := r.do.DB(in.DB)
		sym.Assert((err == nil) == have[k], "exactly the created databases can be opened")
	}
	r.crash()
	r = mustBoot(inner)
	r.check(ps)
	for _, p := range ps {
		r.insert(p)
	}
	r.check(ps)
	r.crash()
	sym.Cover("end")
}

// The domain dies before any storage call while a schema is created and documents are
// inserted. Afterwards everything reported as done is there, and whatever was not can be
// done again.
//
//sym:opt secs=100
func C29_Crash() {
	inner := store.Open()
	r := mustBoot(inner)
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a", "b"}}
	ps := parts(in)
	old := ddl.CreateSchemaInput{DB: "w", Collections: []string{"a"}}
	ops := parts(old)
	_, err := createIn(r.do, old)
	sym.Assert(err == nil, "creating a schema succeeds")
	r.insert(ops[0])
	created, inserted := false, 0
	vals := []int64{sym.Int64("v0"), sym.Int64("v1"), sym.Int64("v2")}
	var ids []int64
	done := make(chan struct{})
	dead := r.db.HangAt(sym.Choice("crash", pick(110, 130)))
	go func() {
		if _, err := createIn(r.do, in); err != nil {
			return
		}
		created = true
		c := r.open(ps[0])
		for _, v := range vals {
			id, err := c.InsertOne(doc{v}, nil)
			if err != nil {
				return
			}
			ids = append(ids, id)
			inserted++
		}
		close(done)
	}()
	tm := time.NewTimer(8 * time.Second)
	select {
	case <-dead:
		sym.Cover("crashed")
	case <-done:
	case <-tm.C:
	}
	r.crash()
	r = mustBoot(inner)
	settle(inner)
	r.check(ops)
	_, err = r.do.DB("x")
	if created {
		sym.Assert(err == nil, "a schema whose creation succeeded is available after a restart")
		c := r.open(ps[0])
		n, err := c.Count(nil)
		sym.Assert(err == nil && (n == inserted || n == inserted+1), "documents survive a restart")
		for i, id := range ids {
			var d doc
			sym.Assert(c.GetOne(id, &d, nil) == nil && d.V == vals[i], "documents survive a restart")
			ps[0].a.hand(id)
			ps[0].m.put(id, vals[i])
		}
		if n == inserted+1 {
			// the insert that was under way had been committed
			_, max, err := c.GetDidRange(nil)
			sym.Assert(err == nil, "reading the id range succeeds")
			ps[0].a.hand(max)
			ps[0].m.put(max, vals[inserted])
			sym.Cover("committed")
		}
		sym.Cover("created")
	} else if err != nil {
		sym.Assert(err == dml.ErrDBNotExists, "the database exists or not")
		_, err = createIn(r.do, in)
		sym.Assert(err == nil, "a name that was not created can be created")
		sym.Cover("again")
	} else {
		sym.Cover("completed after the crash")
	}
	for _, p := range ps {
		r.insert(p)
	}
	r.insert(ops[0])
	r.check(append(ps, ops...))
	r.crash()
	sym.Cover("end")
}

// Storage failures at any call while the domain starts and creates a schema: a success
// can be used at once, and a failure can be repeated.
//
//sym:opt secs=100
func C29_Fault() {
	inner := store.Open()
	r := mustBoot(inner)
	old := ddl.CreateSchemaInput{DB: "w", Collections: []string{"a", "b"}}
	ops := parts(old)
	_, err := createIn(r.do, old)
	sym.Assert(err == nil, "creating a schema succeeds")
	r.insert(ops[0])
	r.crash()
	r = boot(inner)
	n := pick(1, 2)
	r.db.All(n)
	for err = r.do.Init(); err != nil; err = r.do.Init() {
		sym.Assert(r.db.F.Hit > 0, "starting a domain succeeds")
		sym.Assert(n > 0, "a failed start can be repeated")
		n--
		sym.Cover("start failed")
	}
	r.check2(ops, "w")
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a", "b"}}
	ps := parts(in)
	_, err = createIn(r.do, in)
	hit := r.db.Off()
	if err != nil {
		sym.Assert(hit > 0, "creating a schema succeeds")
		settle(inner)
		_, err := createIn(r.do, in)
		sym.Assert(err == nil, "a name that failed to be created can be created again")
		sym.Cover("again")
	}
	for _, p := range ps {
		r.insert(p)
	}
	r.insert(ops[1])
	r.check(append(ps, ops...))
	r.crash()
	sym.Cover("end")
}

// Two storage failures, at any two calls, while a schema is created.
//
//sym:opt secs=100
func C29_Faults() {
	inner := store.Open()
	r := mustBoot(inner)
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}}
	p := parts(in)[0]
	r.db.All(2)
	_, err := createIn(r.do, in)
	hit := r.db.Off()
	if err != nil {
		sym.Assert(hit > 0, "creating a schema succeeds")
		settle(inner)
		_, err := createIn(r.do, in)
		sym.Assert(err == nil, "a name that failed to be created can be created again")
		sym.Cover("again")
	}
	r.insert(p)
	r.check([]*part{p})
	r.crash()
	sym.Cover("end")
}

// check2 checks that a database is visible, without reading documents.
func (r *running) check2(ps []*part, db string) {
	for _, p := range ps {
		sym.Assert(p.db == db, "")
		r.open(p)
	}
}

// A name whose creation failed for good (three tries) can be created again, also after
// a restart.
func C29_Failed() {
	inner := store.Open()
	r := mustBoot(inner)
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}}
	skip := sym.Choice("calls before the outage", pick(20, 40))
	r.db.Outage(skip, 1+sym.Choice("length", 8))
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Second)
	defer cancel()
	_, err := r.do.DDL().CreateSchema(ctx, in)
	r.db.Outage(0, 0)
	settle(inner)
	if flip("restart") {
		r.crash()
		r = mustBoot(inner)
	}
	if err != nil {
		t := inner.NewTransaction(false)
		dbs, lerr := meta.NewMeta(t).ListDatabases()
		t.Discard()
		sym.Assert(lerr == nil && len(dbs) == 0, "a failed creation leaves nothing behind")
		_, err = createIn(r.do, in)
		sym.Assert(err == nil, "a name that failed to be created can be created again")
		sym.Cover("again")
	}
	ps := parts(in)
	r.insert(ps[0])
	r.check(ps)
	r.crash()
	sym.Cover("end")
}

// Schemas of many collections with indexes, and many schemas, all usable at once and after
// a restart.
//
//sym:opt secs=60 tsecs=300 steps=1000000000
func C29_Wide() {
	inner := store.Open()
	r := mustBoot(inner)
	dbs, colls := 1, 12
	switch sym.Choice("shape", pick(3, 4)) {
	case 1:
		colls = 40
	case 2:
		dbs, colls = 13, 2
	case 3:
		dbs, colls = 25, 12
	}
	long := ""
	if flip("long names") {
		long = longName("", 'n', 70, 0)
	}
	var ps []*part
	for i := 0; i < dbs; i++ {
		in := ddl.CreateSchemaInput{DB: long + string([]byte{'d', '0' + byte(i)}), Indices: map[string][]ddl.IndexInfo{}}
		for j := 0; j < colls; j++ {
			n := long + string([]byte{'c', '0' + byte(j)})
			in.Collections = append(in.Collections, n)
			for k := 0; k < j%4; k++ {
				in.Indices[n] = append(in.Indices[n], ddl.IndexInfo{Name: long + string([]byte{'i', '0' + byte(k)}), Columns: []string{long + "p"}, Unique: k == 1})
			}
		}
		_, err := createIn(r.do, in)
		sym.Assert(err == nil, "creating a schema succeeds")
		c := readCatalog(inner)
		c.expect(in)
		touches(inner, c.version, in.DB)
		ps = append(ps, parts(in)...)
		for k, p := range ps {
			if k < len(ps)-colls {
				continue
			}
			r.insert(p)
			r.insert(p)
			coll := r.open(p)
			_, err = coll.Index("absent")
			sym.Assert(err == dml.ErrIndexNotExists, "an index that was not created cannot be opened")
			for _, x := range in.Indices[p.coll] {
				_, err = coll.Index(x.Name)
				sym.Assert(err == nil, "a created index can be opened")
			}
		}
	}
	distinct(allIDs(readCatalog(inner)))
	r.check(ps)
	r.crash()
	r = mustBoot(inner)
	r.check(ps)
	for _, p := range ps {
		r.insert(p)
	}
	r.check(ps)
	r.crash()
	sym.Cover("end")
}
