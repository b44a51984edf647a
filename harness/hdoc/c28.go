package hdoc

import (
	"context"
	"encoding/json"
	"errors"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// queued is a job put into the queue, and what it asks for.
type queued struct {
	job  *model.Job
	in   *ddl.CreateSchemaInput // nil: the job cannot succeed
	dbid int64
}

// request is the job for a schema with one database and up to two collections.
func request(id int64, name string) queued {
	in := &ddl.CreateSchemaInput{DB: name, Collections: []string{"a", "b"}[:1+sym.Choice("second collection", 2)],
		Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}}
	d := &model.DBInfo{ID: id, Name: name, Collections: map[string]*model.CollectionInfo{}, CollectionOrder: in.Collections}
	for i, n := range in.Collections {
		d.Collections[n] = &model.CollectionInfo{ID: id + 1 + int64(i), Name: n, Indices: map[string]*model.IndexInfo{}}
	}
	d.Collections["a"].IndexOrder = []string{"i"}
	d.Collections["a"].Indices["i"] = &model.IndexInfo{ID: id + 4, Name: "i", Columns: []string{"p"}}
	return queued{&model.Job{ID: id + 5, Type: model.ActionCreateSchema, Arg: d}, in, id}
}

// anyJob is a job of any kind; ids from id on are its own.
func anyJob(id int64) queued {
	bad := func(t model.ActionType, arg interface{}) queued {
		return queued{&model.Job{ID: id + 5, Type: t, Arg: arg}, nil, id}
	}
	switch sym.Choice("job", 8) {
	case 0, 1:
		return request(id, "x")
	case 2:
		return request(id, "y")
	case 3: // not implemented
		return bad(model.ActionType(sym.IteInt64(sym.Bool("drop"), int64(model.ActionDropSchema), 200)), nil)
	case 4: // not decodable
		return bad(model.ActionCreateSchema, "nonsense")
	case 5: // no such database
		return bad(model.ActionAddIndex, &model.IndexInfo{ID: id, Name: "i", Columns: []string{"p"}, JobRedundant: &model.IndexInfoRedundant{DB: "none", Collection: "a"}})
	case 6: // incomplete: running it panics
		return bad(model.ActionAddIndex, &model.IndexInfo{ID: id, Name: "i", Columns: []string{"p"}})
	default: // a database id that is taken
		q := request(id, "z")
		q.job.Arg.(*model.DBInfo).ID = 1
		q.in = nil
		return q
	}
}

func enqueue(db mondis.KVDB, qs []queued) {
	t := db.NewTransaction(true)
	defer t.Discard()
	for _, q := range qs {
		sym.Assert(meta.NewMeta(t).EnQueueDDLJob(q.job) == nil, "queueing succeeds")
	}
	sym.Assert(t.Commit() == nil, "queueing succeeds")
}

// outcomes checks that every job has exactly one recorded outcome, and that the store
// holds the effect of exactly the successful ones, in queue order. Only a job that can
// succeed may have succeeded; it may have failed for a good reason or because of the
// injected failures.
func outcomes(db mondis.KVDB, qs []queued, failures int) *catalog {
	c := readCatalog(db)
	sym.Assert(len(c.queue) == 0, "every job leaves the queue")
	sym.Assert(len(c.history) == len(qs), "every job has one recorded outcome")
	t := db.NewTransaction(false)
	defer t.Discard()
	m := meta.NewMeta(t)
	taken := map[string]bool{"old": true}
	version := int64(0)
	expected := map[int64]bool{1: true}
	for _, q := range qs {
		j := c.job(q.job.ID)
		sym.Assert(j != nil, "every job has one recorded outcome")
		h, err := m.GetHistoryDDLJob(q.job.ID)
		sym.Assert(err == nil && h != nil && h.ID == j.ID && h.State == j.State, "a job's outcome can be read")
		sym.Assert(j.Type == q.job.Type, "the outcome names the job")
		d, _ := c.db("")
		for _, x := range c.dbs {
			if x.ID == q.dbid {
				d = x
			}
		}
		if !j.IsSynced() {
			sym.Assert(j.Error != nil && j.Error.Error() != "", "a failed job's outcome has the reason")
			sym.Assert(d == nil, "a failed job leaves no part of its schema behind")
			_, err := m.ListCollections(q.dbid)
			sym.Assert(err == meta.ErrDBNotExists, "a failed job leaves no part of its schema behind")
			if q.in != nil && !taken[q.in.DB] {
				sym.Assert(failures > 0, "a job that can succeed does")
				sym.Assert(failures >= 3, "a job is tried three times before it fails")
			}
			sym.Cover("failed")
			continue
		}
		sym.Assert(q.in != nil && !taken[q.in.DB], "only a job that can succeed is recorded as successful")
		taken[q.in.DB] = true
		expected[q.dbid] = true
		sym.Assert(d != nil && d.Name == q.in.DB, "a successful job has taken full effect")
		c.expect(*q.in)
		for _, ci := range d.Collections {
			sym.Assert(dml.GetSequence(ci.ID) != nil, "a successful job has taken full effect")
		}
		version++
		diff, err := m.GetSchemaDiff(version)
		sym.Assert(err == nil && diff != nil && diff.Version == version && diff.Type == q.job.Type, "every applied job is recorded as one schema change, in order")
		var di model.DBInfo
		sym.Assert(diff.DecodeArg(&di) == nil && sameDB(&di, d), "every applied job is recorded as one schema change, in order")
		sym.Assert(len(diff.CollectionIDs) == len(d.Collections), "every applied job is recorded as one schema change, in order")
		sym.Cover("succeeded")
	}
	sym.Assert(c.version == version, "the schema version advances once per applied job")
	sym.Assert(len(c.dbs) == len(expected), "nothing else is created")
	for _, d := range c.dbs {
		sym.Assert(expected[d.ID], "nothing else is created")
	}
	return c
}

// jobStore is a store with a database with id 1 that no job made.
func jobStore() *store.DB {
	db := store.Open()
	t := db.NewTransaction(true)
	d := dbOf(1, "old", nil)
	m := meta.NewMeta(t)
	_, _, err := m.GenGlobalIDs(100)
	sym.Assert(err == nil && m.CreateDatabase(d) == nil && t.Commit() == nil, "creating a database succeeds")
	t.Discard()
	return db
}

// settle waits until the queue is empty, for half a minute at most.
func settle(db mondis.KVDB) {
	for i := 0; i < 60; i++ {
		time.Sleep(500 * time.Millisecond)
		t := db.NewTransaction(false)
		n, err := meta.NewMeta(t).DDLJobQueueLen()
		t.Discard()
		sym.Assert(err == nil, "the queue stays readable")
		if n == 0 {
			return
		}
	}
}

func someJobs(n int) (qs []queued) {
	for i := 0; i < n; i++ {
		qs = append(qs, anyJob(int64(10*(i+1))))
	}
	return
}

func finish(p *process, c *catalog) {
	p.die(allIDs(c)...)
}

// A queue of jobs of any kind, good and bad.
//
//sym:opt secs=100
func C28_Queue() {
	db := jobStore()
	qs := someJobs(pick(3, 4))
	enqueue(db, qs)
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	settle(db.Inner)
	finish(p, outcomes(db.Inner, qs, 0))
	sym.Cover("end")
}

// A long queue with some job of any kind in it.
//
//sym:opt secs=60 steps=60000000
func C28_Many() {
	db := jobStore()
	n := []int{8, 40, 101}[sym.Choice("jobs", pick(2, 3))]
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	var qs []queued
	for i := 0; i < n; i++ {
		if i == at {
			qs = append(qs, anyJob(int64(10*(i+1))))
			continue
		}
		in := ddl.CreateSchemaInput{DB: "n" + string(rune('0'+i)), Collections: []string{"a"}}
		id := int64(10 * (i + 1))
		d := dbOf(id, in.DB, map[string]int64{"a": id + 1})
		qs = append(qs, queued{&model.Job{ID: id + 5, Type: model.ActionCreateSchema, Arg: d}, &in, id})
	}
	enqueue(db, qs[:n/2])
	enqueue(db, qs[n/2:])
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	settle(db.Inner)
	finish(p, outcomes(db.Inner, qs, 0))
	sym.Cover("end")
}

// Jobs queued while others run, in two batches.
func C28_Late() {
	db := jobStore()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	qs := someJobs(2)
	enqueue(db, qs[:1])
	time.Sleep(time.Duration(sym.Choice("when", 8)) * 500 * time.Millisecond)
	enqueue(db, qs[1:])
	settle(db.Inner)
	finish(p, outcomes(db.Inner, qs, 0))
	sym.Cover("end")
}

// Storage failures at any call while the jobs run.
//
//sym:opt secs=100
func C28_Fault() {
	db := jobStore()
	qs := []queued{anyJob(10), request(20, "x")}
	enqueue(db, qs)
	p := newProcess(db.Inner)
	n := pick(1, 2)
	p.db.All(n)
	err := p.d.Init()
	if err != nil {
		sym.Assert(p.db.F.Hit > 0, "starting succeeds")
		sym.Assert(p.d.Init() == nil, "a failed start can be repeated")
	}
	settle(db.Inner)
	hit := p.db.Off()
	if hit > 0 {
		sym.Cover("fault")
	}
	finish(p, outcomes(db.Inner, qs, hit))
	sym.Cover("end")
}

// Many failures in a row, from any call on.
//
//sym:opt secs=100
func C28_Outage() {
	db := jobStore()
	qs := []queued{request(10, "x"), request(20, "x"), request(30, "y")}
	enqueue(db, qs)
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	skip := sym.Choice("calls before the outage", pick(24, 60))
	n := 1 + sym.Choice("length", pick(6, 12))
	p.db.Outage(skip, n)
	settle(db.Inner)
	finish(p, outcomes(db.Inner, qs, n))
	sym.Cover("end")
}

// The process dies before any storage call and another one takes over.
//
//sym:opt secs=100
func C28_Crash() {
	db := jobStore()
	qs := []queued{anyJob(10), request(20, "x")}
	enqueue(db, qs)
	p := newProcess(db.Inner)
	dead := p.db.HangAt(sym.Choice("crash", pick(60, 90)))
	go p.d.Init()
	tm := time.NewTimer(12 * time.Second)
	select {
	case <-dead:
		sym.Cover("crashed")
	case <-tm.C:
	}
	p.db.Hang()
	time.Sleep(100 * time.Millisecond)
	for i := int64(1); i < 40; i++ {
		dropNow(i)
	}
	time.Sleep(100 * time.Millisecond)
	q := newProcess(db.Inner)
	sym.Assert(q.d.Init() == nil, "starting succeeds")
	settle(db.Inner)
	finish(q, outcomes(db.Inner, qs, 0))
	sym.Cover("end")
}

// Requests through the interface report the outcome their job has.
//
//sym:opt secs=100
func C28_Report() {
	db := jobStore()
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	q := request(10, "x")
	if flip("queued before") {
		enqueue(db, []queued{q})
	}
	p.db.All(pick(1, 2))
	in := ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}}
	job, err := create(p.d, in)
	hit := p.db.Off()
	settle(db.Inner)
	c := readCatalog(db)
	sym.Assert(len(c.queue) == 0, "every job leaves the queue")
	if job == nil {
		sym.Assert(err != nil, "a request that queues no job is refused")
		sym.Cover("refused")
	} else if h := c.job(job.ID); h == nil {
		// the transaction that queues the job failed
		sym.Assert(err != nil && hit > 0, "a request whose job is not queued is refused")
		sym.Cover("not queued")
	} else {
		sym.Assert((err == nil) == h.IsSynced(), "a request reports its job's outcome")
		if err != nil {
			sym.Assert(err.Error() == h.Error.Error(), "a request reports its job's outcome")
			sym.Cover("reported failure")
		} else {
			sym.Cover("reported success")
		}
		g, gerr := p.d.GetHistoryJob(job.ID)
		sym.Assert(gerr == nil && g != nil && g.ID == job.ID && g.State == h.State, "a job's outcome can be read")
	}
	// a request given up by its caller still has one outcome
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+sym.Choice("patience", 5))*200*time.Millisecond)
	defer cancel()
	job, err = p.d.CreateSchema(ctx, ddl.CreateSchemaInput{DB: "y", Collections: []string{"a"}})
	sym.Assert(job != nil && (err == nil || err == context.DeadlineExceeded), "giving up is reported")
	if err == nil {
		now := readCatalog(db).job(job.ID)
		sym.Assert(now != nil && now.IsSynced(), "a request reports its job's outcome")
		sym.Cover("in time")
	} else {
		sym.Cover("given up")
	}
	settle(db.Inner)
	c = readCatalog(db)
	h := c.job(job.ID)
	sym.Assert(h != nil && h.IsSynced() && len(c.queue) == 0, "every job leaves the queue")
	c.expect(ddl.CreateSchemaInput{DB: "y", Collections: []string{"a"}})
	p.die(allIDs(c)...)
	sym.Cover("end")
}

// A job with every field set reads back as it was stored, wherever it is.
func C28_Record() {
	db := store.Open()
	j := &model.Job{ID: sym.Int64("id"), Type: model.ActionType(sym.Byte("type")), State: model.JobState(sym.Byte("state")),
		ErrorCount: sym.Int64("errors"), SchemaState: 3, StartTS: sym.Uint64("ts"), DependencyID: sym.Int64("dep"),
		Arg: dbOf(7, "x", map[string]int64{"a": 8})}
	if flip("failed") {
		j.Error = errors.New("reason")
	}
	same := func(g *model.Job, err error) {
		sym.Assert(err == nil && g != nil, "a stored job can be read")
		sym.Assert(sym.And(g.ID == j.ID, g.Type == j.Type, g.State == j.State, g.ErrorCount == j.ErrorCount), "a stored job reads back as it was")
		sym.Assert(sym.And(g.SchemaState == j.SchemaState, g.StartTS == j.StartTS, g.DependencyID == j.DependencyID), "a stored job reads back as it was")
		sym.Assert((g.Error == nil) == (j.Error == nil), "a stored job reads back as it was")
		if g.Error != nil {
			sym.Assert(g.Error.Error() == j.Error.Error(), "a stored job reads back as it was")
		}
		var d model.DBInfo
		sym.Assert(g.DecodeArg(&d) == nil && sameDB(&d, j.Arg.(*model.DBInfo)), "a stored job reads back as it was")
	}
	t := db.NewTransaction(true)
	m := meta.NewMeta(t)
	sym.Assert(m.EnQueueDDLJob(j) == nil && m.AddHistoryDDLJob(j) == nil, "storing a job succeeds")
	sym.Assert(t.Commit() == nil, "storing a job succeeds")
	t = db.NewTransaction(true)
	m = meta.NewMeta(t)
	same(m.GetDDLJobByIdx(0))
	same(m.GetHistoryDDLJob(j.ID))
	g, err := m.GetDDLJobByIdx(0)
	same(g, err)
	g.ErrorCount++
	g.Error = nil
	g.State = model.JobStateRunning
	sym.Assert(m.UpdateDDLJob(0, g) == nil, "storing a job succeeds")
	j = g
	raw := append(json.RawMessage(nil), g.RawArg...)
	g, err = m.DeQueueDDLJob()
	j.Arg = dbOf(7, "x", map[string]int64{"a": 8})
	same(g, err)
	_ = raw
	sym.Cover("end")
}

// An index is added to a collection of a database: the job ends like every other one.
//
//sym:opt steps=3000000
func C28_AddIndex() {
	db := jobStore()
	tries := 0
	p := &process{db: &store.DB{Inner: db.Inner, F: &store.Faults{}}}
	p.d = ddl.New(p.db, ddl.Options{Callback: ddl.Callback{OnChanged: func(error) {
		tries++
		sym.Assert(tries < 60, "adding an index ends")
	}}})
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	_, err := create(p.d, ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}})
	sym.Assert(err == nil, "creating a schema succeeds")
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	job, err := p.d.AddIndex(ctx, ddl.AddIndexInput{DB: "x", Collection: "a", IndexInfo: ddl.IndexInfo{Name: "i", Columns: []string{"p"}}})
	sym.Assert(job != nil && err == nil, "adding an index succeeds")
	c := readCatalog(db)
	sym.Assert(len(c.queue) == 0 && c.job(job.ID).IsSynced(), "adding an index ends")
	d, _ := c.db("x")
	sym.Assert(d.CollectionInfo("a").IndexInfo("i").State == public, "adding an index succeeds")
	p.die(allIDs(c)...)
	sym.Cover("end")
}
