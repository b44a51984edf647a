package hdoc

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"github.com/zhiqiangxu/util/osc"
)

// shelf is the ideal catalogue.
type shelf struct {
	more  []int64 // ids to look at besides catDBs
	dbs   []*model.DBInfo
	colls []map[int64]*model.CollectionInfo // by database position
}

func (s *shelf) find(id int64) int {
	for i, d := range s.dbs {
		if d.ID == id {
			return i
		}
	}
	return -1
}

func (s *shelf) copy() *shelf {
	r := &shelf{dbs: append([]*model.DBInfo(nil), s.dbs...)}
	for _, m := range s.colls {
		n := map[int64]*model.CollectionInfo{}
		for k, v := range m {
			n[k] = v
		}
		r.colls = append(r.colls, n)
	}
	return r
}

var catDBs = []int64{1, 12, -1}
var catColls = []int64{1, 12, 1 << 62}

// check reads the whole catalogue back.
func (s *shelf) check(m *meta.Meta) {
	l, err := m.ListDatabases()
	sym.Assert(err == nil && len(l) == len(s.dbs), "the listing has exactly the databases that exist")
	seen := map[int64]bool{}
	for _, d := range l {
		i := s.find(d.ID)
		sym.Assert(i >= 0 && !seen[d.ID], "the listing has exactly the databases that exist")
		seen[d.ID] = true
		sym.Assert(sameDB(d, s.dbs[i]), "a database reads back as written")
	}
	for _, id := range append(s.more, catDBs...) {
		i := s.find(id)
		d, err := m.GetDatabase(id)
		if i < 0 {
			sym.Assert(err == meta.ErrDBNotExists, "a missing database is reported")
			_, err = m.ListCollections(id)
			sym.Assert(err == meta.ErrDBNotExists, "a missing database is reported")
			_, err = m.GetCollection(id, 1)
			sym.Assert(err == meta.ErrDBNotExists, "a missing database is reported")
			continue
		}
		sym.Assert(err == nil && sameDB(d, s.dbs[i]), "a database reads back as written")
		cs, err := m.ListCollections(id)
		sym.Assert(err == nil && len(cs) == len(s.colls[i]), "the listing has exactly the collections that exist")
		got := map[int64]bool{}
		for _, c := range cs {
			sym.Assert(!got[c.ID] && s.colls[i][c.ID] != nil, "the listing has exactly the collections that exist")
			got[c.ID] = true
			sym.Assert(sameColl(c, s.colls[i][c.ID]), "a collection reads back as written")
		}
		for _, cid := range catColls {
			c, err := m.GetCollection(id, cid)
			if s.colls[i][cid] == nil {
				sym.Assert(err == meta.ErrCollectionNotExists, "a missing collection is reported")
			} else {
				sym.Assert(err == nil && sameColl(c, s.colls[i][cid]), "a collection reads back as written")
			}
		}
	}
}

// someDB and someColl are values with arbitrary contents.
func someDB(id int64) *model.DBInfo {
	d := &model.DBInfo{ID: id, Name: name("name", 1), State: osc.SchemaState(sym.Byte("state")), Collections: map[string]*model.CollectionInfo{}}
	if flip("with collection") {
		ci := someColl(5)
		d.Collections[ci.Name] = ci
		d.CollectionOrder = []string{ci.Name}
	}
	return d
}

func someColl(id int64) *model.CollectionInfo {
	c := &model.CollectionInfo{ID: id, Name: name("name", 1), State: osc.SchemaState(sym.Byte("state")), Indices: map[string]*model.IndexInfo{}}
	if id != 5 {
		c.Indices["i"] = &model.IndexInfo{ID: sym.Int64("index id"), Name: "i", Unique: sym.Bool("unique"), Columns: []string{"p", "q"}, State: osc.SchemaState(sym.Byte("state"))}
		c.IndexOrder = []string{"i"}
	}
	return c
}

// step runs one arbitrary operation.
func (s *shelf) step(m *meta.Meta) {
	id := catDBs[sym.Choice("db", 2)]
	i := s.find(id)
	op := sym.Choice("op", 6)
	var cid int64
	if op >= 3 {
		cid = catColls[sym.Choice("collection", 2)]
	}
	switch op {
	case 0:
		d := someDB(id)
		err := m.CreateDatabase(d)
		if i >= 0 {
			sym.Assert(err == meta.ErrDBExists, "creating an existing database is refused")
			sym.Cover("refused")
			return
		}
		sym.Assert(err == nil, "creating a database succeeds")
		s.dbs, s.colls = append(s.dbs, d), append(s.colls, map[int64]*model.CollectionInfo{})
	case 1:
		d := someDB(id)
		err := m.UpdateDatabase(d)
		if i < 0 {
			sym.Assert(err == meta.ErrDBNotExists, "updating a missing database is refused")
			return
		}
		sym.Assert(err == nil, "updating a database succeeds")
		s.dbs[i] = d
	case 2:
		err := m.DropDatabase(id)
		if i < 0 {
			sym.Assert(err == meta.ErrDBNotExists, "dropping a missing database is refused")
			return
		}
		sym.Assert(err == nil, "dropping a database succeeds")
		s.dbs = append(s.dbs[:i:i], s.dbs[i+1:]...)
		s.colls = append(s.colls[:i:i], s.colls[i+1:]...)
		sym.Cover("dropped")
	case 3:
		c := someColl(cid)
		err := m.CreateCollection(id, c)
		switch {
		case i < 0:
			sym.Assert(err == meta.ErrDBNotExists, "a collection of a missing database is refused")
		case s.colls[i][cid] != nil:
			sym.Assert(err == meta.ErrCollectionExists, "creating an existing collection is refused")
		default:
			sym.Assert(err == nil, "creating a collection succeeds")
			s.colls[i][cid] = c
		}
	case 4:
		c := someColl(cid)
		err := m.UpdateCollection(id, c)
		switch {
		case i < 0:
			sym.Assert(err == meta.ErrDBNotExists, "a collection of a missing database is refused")
		case s.colls[i][cid] == nil:
			sym.Assert(err == meta.ErrCollectionNotExists, "updating a missing collection is refused")
		default:
			sym.Assert(err == nil, "updating a collection succeeds")
			s.colls[i][cid] = c
		}
	default:
		err := m.DropCollection(id, cid, flip("with ids"))
		switch {
		case i < 0:
			sym.Assert(err == meta.ErrDBNotExists, "a collection of a missing database is refused")
		case s.colls[i][cid] == nil:
			sym.Assert(err == meta.ErrCollectionNotExists, "dropping a missing collection is refused")
		default:
			sym.Assert(err == nil, "dropping a collection succeeds")
			delete(s.colls[i], cid)
		}
	}
}

// inTxn runs f in an update transaction that is committed, or abandoned.
func inTxn(db mondis.KVDB, commit bool, f func(m *meta.Meta)) {
	t := db.NewTransaction(true)
	defer t.Discard()
	f(meta.NewMeta(t))
	if commit {
		sym.Assert(t.Commit() == nil, "committing succeeds")
	}
}

// Arbitrary operations on a catalogue that has two databases, each with a collection and
// its id sequence, in one transaction or several.
//
//sym:opt secs=200
func C26_Catalog() {
	db := store.Open()
	s := &shelf{}
	inTxn(db, true, func(m *meta.Meta) {
		for _, id := range []int64{1, -1} {
			d := dbOf(id, "n", nil)
			sym.Assert(m.CreateDatabase(d) == nil, "creating a database succeeds")
			c := someColl(1)
			sym.Assert(m.CreateCollection(id, c) == nil, "creating a collection succeeds")
			s.dbs, s.colls = append(s.dbs, d), append(s.colls, map[int64]*model.CollectionInfo{1: c})
		}
	})
	for _, id := range []int64{1, -1} {
		q, err := meta.NewDocIDSequence(db, id, 1, 5)
		sym.Assert(err == nil, "creating a sequence succeeds")
		_, err = q.Next()
		sym.Assert(err == nil, "allocating an id succeeds")
	}
	n := pick(2, 3)
	switch sym.Choice("transactions", 3) {
	case 0: // each in its own
		for i := 0; i < n; i++ {
			inTxn(db, true, s.step)
		}
	case 1: // all in one
		inTxn(db, true, func(m *meta.Meta) {
			for i := 0; i < n; i++ {
				s.step(m)
			}
			s.check(m)
		})
	default: // the last one abandoned
		inTxn(db, true, s.step)
		kept := s.copy()
		inTxn(db, false, s.step)
		s = kept
	}
	inTxn(db, false, s.check)
	// dropping everything leaves nothing
	inTxn(db, true, func(m *meta.Meta) {
		for len(s.dbs) > 0 {
			sym.Assert(m.DropDatabase(s.dbs[0].ID) == nil, "dropping a database succeeds")
			s.dbs, s.colls = s.dbs[1:], s.colls[1:]
			s.check(m)
		}
	})
	sym.Assert(len(db.Dump()) == 0, "dropping a database removes everything of it")
	sym.Cover("end")
}

// A store failure at any call of an operation: it is reported, and the abandoned
// transaction changes nothing.
//
//sym:opt secs=100
func C26_Fault() {
	db := store.Open()
	s := &shelf{}
	inTxn(db, true, func(m *meta.Meta) {
		d := dbOf(1, "n", nil)
		c := someColl(1)
		sym.Assert(m.CreateDatabase(d) == nil && m.CreateCollection(1, c) == nil, "creating succeeds")
		s.dbs, s.colls = append(s.dbs, d), append(s.colls, map[int64]*model.CollectionInfo{1: c})
		sym.Assert(m.EnQueueDDLJob(&model.Job{ID: 1}) == nil && m.AddHistoryDDLJob(&model.Job{ID: 2}) == nil, "storing a job succeeds")
		sym.Assert(m.UpdateDDLReorgHandle(&model.Job{ID: 1}, 5, 6, 7) == nil, "storing a position succeeds")
	})
	before := db.Dump()
	t := db.NewTransaction(true)
	m := meta.NewMeta(t)
	c, d := someColl(12), dbOf(12, "m", nil)
	db.All(1)
	var err error
	op := sym.Choice("op", 17)
	switch op {
	case 0:
		err = m.CreateDatabase(d)
	case 1:
		d.ID = 1
		err = m.UpdateDatabase(d)
	case 2:
		err = m.DropDatabase(1)
	case 3:
		err = m.CreateCollection(1, c)
	case 4:
		c.ID = 1
		err = m.UpdateCollection(1, c)
	case 5:
		err = m.DropCollection(1, 1, true)
	case 6:
		_, err = m.GenGlobalID()
	case 7:
		_, err = m.GenSchemaVersion()
	case 8:
		err = m.EnQueueDDLJob(&model.Job{ID: 9})
	case 9:
		_, err = m.DeQueueDDLJob()
	case 10:
		err = m.UpdateDDLJob(0, &model.Job{ID: 9})
	case 11:
		err = m.AddHistoryDDLJob(&model.Job{ID: 9})
	case 12:
		err = m.SetSchemaDiff(&model.SchemaDiff{Version: 3})
	case 13:
		err = m.RemoveDDLReorgHandle(&model.Job{ID: 1})
	case 14:
		err = m.UpdateDDLReorgStartHandle(&model.Job{ID: 1}, 4)
	case 15:
		err = m.FinishBootstrap(4)
	default:
		err = m.UpdateDDLReorgHandle(&model.Job{ID: 9}, 1, 2, 3)
	}
	hit := db.Off()
	if hit > 0 {
		sym.Assert(err != nil, "a failing store call is reported")
		sym.Assert(err != meta.ErrDBNotExists && err != meta.ErrDBExists && err != meta.ErrCollectionNotExists && err != meta.ErrCollectionExists && err != meta.ErrJobNotExists, "a failing store call is not mistaken for an answer")
		t.Discard()
		sym.Assert(sameStore(before, db.Dump()), "an abandoned operation changes nothing")
		inTxn(db, false, s.check)
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "a valid operation succeeds")
		sym.Assert(t.Commit() == nil, "committing succeeds")
		sym.Assert(!sameStore(before, db.Dump()), "the operation takes effect")
	}
	sym.Cover("end")
}

// Reads with a failing store call report it.
func C26_ReadFault() {
	db := store.Open()
	inTxn(db, true, func(m *meta.Meta) {
		sym.Assert(m.CreateDatabase(dbOf(1, "n", nil)) == nil && m.CreateCollection(1, someColl(1)) == nil, "creating succeeds")
		sym.Assert(m.EnQueueDDLJob(&model.Job{ID: 1}) == nil && m.AddHistoryDDLJob(&model.Job{ID: 2}) == nil, "storing a job succeeds")
		_, err := m.GenGlobalID()
		sym.Assert(err == nil && m.SetSchemaDiff(&model.SchemaDiff{Version: 3}) == nil && m.FinishBootstrap(4) == nil, "storing succeeds")
		_, err = m.GenSchemaVersion()
		sym.Assert(err == nil && m.UpdateDDLReorgHandle(&model.Job{ID: 9}, 1, 2, 3) == nil, "storing succeeds")
	})
	t := db.NewTransaction(false)
	defer t.Discard()
	m := meta.NewMeta(t)
	db.All(1)
	var err error
	found := true
	switch sym.Choice("op", 15) {
	case 0:
		var d *model.DBInfo
		d, err = m.GetDatabase(1)
		found = d != nil
	case 1:
		var c *model.CollectionInfo
		c, err = m.GetCollection(1, 1)
		found = c != nil
	case 2:
		var l []*model.DBInfo
		l, err = m.ListDatabases()
		found = len(l) == 1
	case 3:
		var l []*model.CollectionInfo
		l, err = m.ListCollections(1)
		found = len(l) == 1
	case 4:
		_, err = m.GetGlobalID()
	case 5:
		var v int64
		v, err = m.GetSchemaVersion()
		found = v == 1
	case 6:
		var v int64
		v, err = m.GetBootstrapVersion()
		found = v == 4
	case 7:
		var d *model.SchemaDiff
		d, err = m.GetSchemaDiff(3)
		found = d != nil
	case 8:
		var j *model.Job
		j, err = m.GetDDLJobByIdx(0)
		found = j != nil
	case 9:
		var l []*model.Job
		l, err = m.GetAllDDLJobsInQueue()
		found = len(l) == 1
	case 10:
		var n int64
		n, err = m.DDLJobQueueLen()
		found = n == 1
	case 11:
		var j *model.Job
		j, err = m.GetHistoryDDLJob(2)
		found = j != nil
	case 12:
		var l []*model.Job
		l, err = m.GetAllHistoryDDLJobs()
		found = len(l) == 1
	case 13:
		var l []*model.Job
		l, err = m.GetLastNHistoryDDLJobs(2)
		found = len(l) == 1
	default:
		var s, e int64
		s, e, err = m.GetDDLReorgHandle(&model.Job{ID: 9})
		found = s == 1 && e == 2
	}
	if db.Off() > 0 {
		sym.Assert(err != nil, "a failing store call is reported")
		sym.Assert(err != meta.ErrDBNotExists && err != meta.ErrCollectionNotExists && err != kv.ErrKeyNotFound, "a failing store call is not mistaken for an answer")
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil && found, "what is stored is found")
	}
	sym.Cover("end")
}

// Ids and versions strictly increase and ranges never overlap, across transactions that
// commit, conflict or are abandoned.
func C26_Ids() {
	db := store.Open()
	var lastID, lastV int64
	for i := 0; i < pick(2, 3); i++ {
		t := db.NewTransaction(true)
		m := meta.NewMeta(t)
		id, v := lastID, lastV
		for j := 1 + sym.Choice("calls", 2); j > 0; j-- {
			switch sym.Choice("op", 3) {
			case 0:
				n, err := m.GenGlobalID()
				sym.Assert(err == nil && n > id, "ids strictly increase")
				id = n
			case 1:
				n := 1 + sym.Choice("n", 3)
				s, e, err := m.GenGlobalIDs(n)
				sym.Assert(err == nil && s >= id && e == s+int64(n), "reserved ranges do not overlap")
				id = e
			default:
				n, err := m.GenSchemaVersion()
				sym.Assert(err == nil && n == v+1, "versions increase by one")
				v = n
			}
		}
		if flip("commit") {
			sym.Assert(t.Commit() == nil, "committing succeeds")
			lastID, lastV = id, v
		} else {
			sym.Cover("abandoned")
		}
		t.Discard()
		t = db.NewTransaction(false)
		m = meta.NewMeta(t)
		g, err := m.GetSchemaVersion()
		sym.Assert(err == nil && g == lastV, "the current version is the last one generated")
		g, err = m.GetGlobalID()
		if lastID == 0 {
			sym.Assert(err == kv.ErrKeyNotFound, "before the first id there is none")
		} else {
			sym.Assert(err == nil && g == lastID, "the current id is the last one generated")
		}
		t.Discard()
	}
	// overlapping transactions: never the same id twice
	t1, t2 := db.NewTransaction(true), db.NewTransaction(true)
	a, err := meta.NewMeta(t1).GenGlobalID()
	sym.Assert(err == nil, "allocating an id succeeds")
	b, err := meta.NewMeta(t2).GenGlobalID()
	sym.Assert(err == nil, "allocating an id succeeds")
	ok1, ok2 := t1.Commit() == nil, t2.Commit() == nil
	sym.Assert(ok1, "the first commit succeeds")
	if ok2 {
		sym.Assert(a != b, "overlapping transactions never get the same id")
	}
	sym.Cover("end")
}

func sameJob(a, b *model.Job) bool {
	return sym.And(a.ID == b.ID, a.Type == b.Type, a.State == b.State, a.ErrorCount == b.ErrorCount, (a.Error == nil) == (b.Error == nil))
}

func someJob(id int64) *model.Job {
	j := &model.Job{ID: id, Type: model.ActionType(sym.Byte("type")), State: model.JobState(sym.Byte("state")), ErrorCount: sym.Int64("count"), Arg: "x"}
	return j
}

// Arbitrary operations on the two job queues.
//
//sym:opt secs=100
func C26_Queue() {
	db := store.Open()
	var qs [2][]*model.Job
	keys := []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey}
	t := db.NewTransaction(true)
	one := flip("one transaction")
	id := int64(100)
	for i := 0; i < 3; i++ {
		j, k := someJob(int64(i+1)), i/2
		sym.Assert(meta.NewMeta(t).EnQueueDDLJob(j, keys[k]) == nil, "queueing a job succeeds")
		qs[k] = append(qs[k], j)
	}
	named := false
	for i := 0; i < pick(3, 4); i++ {
		k := sym.Choice("queue", 2)
		m := meta.NewMeta(t, keys[k])
		if k == 0 {
			m = meta.NewMeta(t)
		}
		named = !named
		switch sym.Choice("op", 3) {
		case 0:
			id--
			j := someJob(id)
			var err error
			if named {
				m = meta.NewMeta(t, keys[1-k])
				err = m.EnQueueDDLJob(j, keys[k])
			} else {
				err = m.EnQueueDDLJob(j)
			}
			sym.Assert(err == nil, "queueing a job succeeds")
			qs[k] = append(qs[k], j)
		case 1:
			j, err := m.DeQueueDDLJob()
			sym.Assert(err == nil, "taking a job succeeds")
			if len(qs[k]) == 0 {
				sym.Assert(j == nil, "an empty queue has no job")
			} else {
				sym.Assert(j != nil && sameJob(j, qs[k][0]), "jobs come out in the order they went in")
				qs[k] = qs[k][1:]
				sym.Cover("taken")
			}
		default:
			pos := sym.Choice("position", 4)
			j := someJob(id + 1000)
			err := m.UpdateDDLJob(int64(pos), j, keys[k])
			if pos < len(qs[k]) {
				sym.Assert(err == nil, "updating a job succeeds")
				qs[k] = append([]*model.Job(nil), qs[k]...)
				qs[k][pos] = j
				sym.Cover("updated")
			} else {
				sym.Assert(err == meta.ErrJobNotExists, "updating a missing job is refused")
			}
		}
		if !one {
			sym.Assert(t.Commit() == nil, "committing succeeds")
			t = db.NewTransaction(true)
		}
	}
	for k := range qs {
		m := meta.NewMeta(t, keys[k])
		n, err := m.DDLJobQueueLen()
		sym.Assert(err == nil && n == int64(len(qs[k])), "the length of a queue is the number of its jobs")
		all, err := m.GetAllDDLJobsInQueue()
		sym.Assert(err == nil && len(all) == len(qs[k]), "a queue lists exactly its jobs")
		for i, j := range qs[k] {
			listed := 0
			for _, x := range all {
				if x.ID == j.ID {
					listed++
				}
			}
			same := 0
			for _, x := range qs[k] {
				if x.ID == j.ID {
					same++
				}
			}
			sym.Assert(listed == same, "a queue lists exactly its jobs")
			g, err := meta.NewMeta(t).GetDDLJobByIdx(int64(i), keys[k])
			sym.Assert(err == nil && g != nil && sameJob(g, j), "a job is found by its position")
		}
		g, err := m.GetDDLJobByIdx(int64(len(qs[k])))
		sym.Assert(err == nil && g == nil, "there is no job behind the last")
	}
	t.Discard()
	sym.Cover("end")
}

// Records by arbitrary 64-bit id: history, reorganisation positions.
//
//sym:opt secs=100
func C26_Records() {
	db := store.Open()
	n := pick(3, 4)
	var ids []int64
	var js []*model.Job
	type pos struct{ s, e int64 }
	reorg := map[int]pos{}
	inTxn(db, true, func(m *meta.Meta) {
		for i := 0; i < n; i++ {
			id := sym.Int64("id")
			j := someJob(id)
			sym.Assert(m.AddHistoryDDLJob(j) == nil, "storing a job succeeds")
			at := len(ids)
			for k, o := range ids {
				if o == id {
					at = k
					js[k] = j
				}
			}
			if at == len(ids) {
				ids, js = append(ids, id), append(js, j)
			}
			if i < 2 {
				p := pos{sym.Int64("start"), sym.Int64("end")}
				sym.Assert(m.UpdateDDLReorgHandle(j, p.s, p.e, 0) == nil, "storing a position succeeds")
				reorg[at] = p
				if flip("advance") {
					p.s = sym.Int64("start")
					sym.Assert(m.UpdateDDLReorgStartHandle(j, p.s) == nil, "storing a position succeeds")
					reorg[at] = p
				}
			}
		}
	})
	check := func(m *meta.Meta) {
		for i, id := range ids {
			j, err := m.GetHistoryDDLJob(id)
			sym.Assert(err == nil && j != nil && sameJob(j, js[i]), "a record is what was stored under its id")
			s, e, err := m.GetDDLReorgHandle(&model.Job{ID: id})
			if p, ok := reorg[i]; ok {
				sym.Assert(err == nil && s == p.s && e == p.e, "a position is what was stored under its id")
			} else {
				sym.Assert(err == kv.ErrKeyNotFound, "a position that was not stored is not found")
			}
		}
		other := sym.Int64("other")
		absent := true
		for _, id := range ids {
			absent = sym.And(absent, other != id)
		}
		if absent {
			j, err := m.GetHistoryDDLJob(other)
			sym.Assert(err == nil && j == nil, "a job that was not recorded is not found")
		}
		all, err := m.GetAllHistoryDDLJobs()
		sym.Assert(err == nil && len(all) == len(ids), "the history lists every job once")
		for i := 1; i < len(all); i++ {
			sym.Assert(uint64(all[i-1].ID) < uint64(all[i].ID), "the history is in id order")
		}
		k := sym.Choice("last", n+2)
		l, err := m.GetLastNHistoryDDLJobs(k)
		want := len(all)
		if k < want {
			want = k
		}
		sym.Assert(err == nil && len(l) == want, "as many of the latest jobs as asked for are returned")
		for i := range l {
			sym.Assert(sameJob(l[i], all[len(all)-1-i]), "the latest jobs come first")
		}
	}
	inTxn(db, false, check)
	inTxn(db, true, func(m *meta.Meta) {
		sym.Assert(m.RemoveDDLReorgHandle(js[0]) == nil, "removing a position succeeds")
		delete(reorg, 0)
	})
	inTxn(db, false, check)
	sym.Cover("end")
}

// Recorded schema changes and the bootstrap version.
func C26_Diffs() {
	db := store.Open()
	vs := []int64{1, 10, 11, -1, 1<<63 - 1, -1 << 63, 0}
	a, b := vs[sym.Choice("version", len(vs))], vs[sym.Choice("version", len(vs))]
	mk := func(v int64) *model.SchemaDiff {
		d := &model.SchemaDiff{Version: v, Type: model.ActionType(sym.Byte("type")), Arg: dbOf(sym.Int64("db"), "x", map[string]int64{"a": sym.Int64("cid")})}
		for i := sym.Choice("collections", 3); i > 0; i-- {
			d.CollectionIDs = append(d.CollectionIDs, sym.Int64("cid"))
		}
		return d
	}
	da, dbb := mk(a), mk(b)
	boot := sym.Int64("bootstrap")
	inTxn(db, true, func(m *meta.Meta) {
		v, err := m.GetBootstrapVersion()
		sym.Assert(err == nil && v == 0, "a fresh store is not bootstrapped")
		sym.Assert(m.SetSchemaDiff(da) == nil && m.SetSchemaDiff(dbb) == nil, "storing a change succeeds")
		sym.Assert(m.FinishBootstrap(boot) == nil, "storing the version succeeds")
	})
	if a == b {
		da = dbb
	}
	inTxn(db, false, func(m *meta.Meta) {
		for _, w := range []*model.SchemaDiff{da, dbb} {
			g, err := m.GetSchemaDiff(w.Version)
			sym.Assert(err == nil && g != nil && g.Version == w.Version && g.Type == w.Type && len(g.CollectionIDs) == len(w.CollectionIDs), "a change reads back as recorded")
			for i := range w.CollectionIDs {
				sym.Assert(g.CollectionIDs[i] == w.CollectionIDs[i], "a change reads back as recorded")
			}
			var d model.DBInfo
			sym.Assert(g.DecodeArg(&d) == nil && sameDB(&d, w.Arg.(*model.DBInfo)), "a change reads back as recorded")
		}
		for _, v := range vs {
			if v != a && v != b {
				g, err := m.GetSchemaDiff(v)
				sym.Assert(err == nil && g == nil, "a change that was not recorded is not found")
			}
		}
		v, err := m.GetBootstrapVersion()
		sym.Assert(err == nil && v == boot, "the bootstrap version reads back")
		sv, err := m.GetSchemaVersion()
		sym.Assert(err == nil && sv == 0, "recording a change does not advance the version")
	})
	sym.Cover("end")
}

// Two databases and collections with arbitrary 64-bit ids: as long as they differ they
// do not share anything.
//
//sym:opt secs=60 numtext=1
func C26_Wide() {
	db := store.Open()
	a, b := sym.Int64("a"), sym.Int64("b")
	ca, cb := sym.Int64("ca"), sym.Int64("cb")
	sym.Assume(a != b)
	inTxn(db, true, func(m *meta.Meta) {
		da := dbOf(a, "a", nil)
		sym.Assert(m.CreateDatabase(da) == nil, "creating a database succeeds")
		x := someColl(ca)
		sym.Assert(m.CreateCollection(a, x) == nil, "creating a collection succeeds")
		_, err := m.GetDatabase(b)
		sym.Assert(err == meta.ErrDBNotExists, "a missing database is reported")
		sym.Assert(m.CreateDatabase(dbOf(b, "b", nil)) == nil, "creating a database succeeds")
		l, err := m.ListCollections(b)
		sym.Assert(err == nil && len(l) == 0, "the listing has exactly the collections that exist")
		if ca != cb {
			_, err = m.GetCollection(a, cb)
			sym.Assert(err == meta.ErrCollectionNotExists, "a missing collection is reported")
			sym.Assert(m.CreateCollection(a, someColl(cb)) == nil, "creating a collection succeeds")
			l, err = m.ListCollections(a)
			sym.Assert(err == nil && len(l) == 2, "the listing has exactly the collections that exist")
			sym.Assert(m.DropCollection(a, cb, true) == nil, "dropping a collection succeeds")
			sym.Cover("two collections")
		} else {
			sym.Assert(m.CreateCollection(a, someColl(cb)) == meta.ErrCollectionExists, "creating an existing collection is refused")
		}
		c, err := m.GetCollection(a, ca)
		sym.Assert(err == nil && sameColl(c, x), "a collection reads back as written")
		g, err := m.GetDatabase(a)
		sym.Assert(err == nil && sameDB(g, da), "a database reads back as written")
		ds, err := m.ListDatabases()
		sym.Assert(err == nil && len(ds) == 2, "the listing has exactly the databases that exist")
		sym.Assert(m.DropDatabase(b) == nil, "dropping a database succeeds")
		g, err = m.GetDatabase(a)
		sym.Assert(err == nil && sameDB(g, da), "a database reads back as written")
		c, err = m.GetCollection(a, ca)
		sym.Assert(err == nil && sameColl(c, x), "a collection reads back as written")
		// recorded changes
		sym.Assert(m.SetSchemaDiff(&model.SchemaDiff{Version: a, Type: 1}) == nil, "storing a change succeeds")
		diff, err := m.GetSchemaDiff(b)
		sym.Assert(err == nil && diff == nil, "a change that was not recorded is not found")
		sym.Assert(m.SetSchemaDiff(&model.SchemaDiff{Version: b, Type: 2}) == nil, "storing a change succeeds")
		diff, err = m.GetSchemaDiff(a)
		sym.Assert(err == nil && diff != nil && diff.Version == a && diff.Type == 1, "a change reads back as recorded")
	})
	sym.Cover("end")
}

// Many databases, collections, queued jobs and recorded jobs, with ids of every length.
//
//sym:opt secs=60 steps=30000000
func C26_Many() {
	db := store.Open()
	n := []int{12, 40, 150}[sym.Choice("size", 3)]
	step := []int64{1, 7, 1 << 20, 1 << 54}[sym.Choice("step", 4)]
	s := &shelf{more: []int64{8, 8 + step}}
	var js []*model.Job
	inTxn(db, true, func(m *meta.Meta) {
		for i := 0; i < n; i++ {
			id := 8 + step*int64(i)
			d := dbOf(id, "n", nil)
			sym.Assert(m.CreateDatabase(d) == nil, "creating a database succeeds")
			s.dbs, s.colls = append(s.dbs, d), append(s.colls, map[int64]*model.CollectionInfo{})
			c := &model.CollectionInfo{ID: id + 1, Name: "c", Indices: map[string]*model.IndexInfo{}}
			sym.Assert(m.CreateCollection(8, c) == nil, "creating a collection succeeds")
			s.colls[0][c.ID] = c
			j := &model.Job{ID: id, ErrorCount: int64(i), Arg: "x"}
			js = append(js, j)
			sym.Assert(m.EnQueueDDLJob(j) == nil, "queueing a job succeeds")
		}
		for i := range js {
			k := (i*7 + 3) % n // in some other order
			if n%7 == 0 {
				k = i
			}
			sym.Assert(m.AddHistoryDDLJob(js[k]) == nil, "storing a job succeeds")
		}
	})
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	inTxn(db, true, func(m *meta.Meta) {
		s.check(m)
		l, err := m.DDLJobQueueLen()
		sym.Assert(err == nil && l == int64(n), "the length of a queue is the number of its jobs")
		j := &model.Job{ID: js[at].ID, ErrorCount: sym.Int64("count"), Arg: "y"}
		js[at] = j
		sym.Assert(m.UpdateDDLJob(int64(at), j) == nil && m.AddHistoryDDLJob(j) == nil, "updating a job succeeds")
		all, err := m.GetAllDDLJobsInQueue()
		sym.Assert(err == nil && len(all) == n, "a queue lists exactly its jobs")
		hist, err := m.GetAllHistoryDDLJobs()
		sym.Assert(err == nil && len(hist) == n, "the history lists every job once")
		for i := range js {
			sym.Assert(sameJob(hist[i], js[i]), "the history is in id order")
			g, err := m.GetDDLJobByIdx(int64(i))
			sym.Assert(err == nil && g != nil && sameJob(g, js[i]), "a job is found by its position")
		}
		k := []int{1, 11, n - 1, n + 5}[sym.Choice("last", 4)]
		last, err := m.GetLastNHistoryDDLJobs(k)
		if k > n {
			k = n
		}
		sym.Assert(err == nil && len(last) == k, "as many of the latest jobs as asked for are returned")
		for i := range last {
			sym.Assert(sameJob(last[i], js[n-1-i]), "the latest jobs come first")
		}
		for i := range js {
			g, err := m.DeQueueDDLJob()
			sym.Assert(err == nil && g != nil && sameJob(g, js[i]), "jobs come out in the order they went in")
		}
		sym.Assert(m.DropDatabase(8) == nil, "dropping a database succeeds")
		s.dbs, s.colls = s.dbs[1:], s.colls[1:]
		s.check(m)
		want := n
		for want > 0 {
			size := want
			if size > 60 {
				size = 60
			}
			from, to, err := m.GenGlobalIDs(size * 3)
			sym.Assert(err == nil && to == from+int64(size*3), "reserved ranges do not overlap")
			want -= size
		}
		from, to, err := m.GenGlobalIDs(n * 20)
		sym.Assert(err == nil && from == int64(n*3) && to == int64(n*23), "reserved ranges do not overlap")
	})
	sym.Cover("end")
}

// A collection dropped together with its document ids, or without them, whatever its id
// and its database's: made anew its ids start over, or go on, and another collection's
// are not touched.
//
//sym:opt secs=60 numtext=1
func C26_DropIds() {
	db := store.Open()
	a, b := sym.Int64("a"), sym.Int64("b")
	ca, cb := sym.Int64("ca"), sym.Int64("cb")
	sym.Assume(a != b && ca != cb)
	inTxn(db, true, func(m *meta.Meta) {
		for _, d := range []int64{a, b} {
			sym.Assert(m.CreateDatabase(dbOf(d, "d", nil)) == nil, "creating a database succeeds")
			for _, c := range []int64{ca, cb} {
				sym.Assert(m.CreateCollection(d, someColl(c)) == nil, "creating a collection succeeds")
			}
		}
	})
	next := func(d, c int64) int64 {
		q, err := meta.NewDocIDSequence(db, d, c, 5)
		sym.Assert(err == nil, "creating a sequence succeeds")
		n, err := q.Next()
		sym.Assert(err == nil, "allocating an id succeeds")
		sym.Assert(q.Close(true) == nil, "closing a sequence succeeds")
		return n
	}
	for i := int64(1); i <= 3; i++ {
		for _, d := range []int64{a, b} {
			for _, c := range []int64{ca, cb} {
				sym.Assert(next(d, c) == i, "ids are handed out in order")
			}
		}
	}
	ids := flip("with its ids")
	how := sym.Choice("how", 3)
	left := flip("left dropped")
	inTxn(db, true, func(m *meta.Meta) {
		switch how {
		case 0:
			sym.Assert(m.DropCollection(a, ca, ids) == nil, "dropping a collection succeeds")
			if !left {
				sym.Assert(m.CreateCollection(a, someColl(ca)) == nil, "creating a collection succeeds")
			}
		case 1:
			ids = true
			sym.Assert(m.DropDatabase(a) == nil, "dropping a database succeeds")
			if !left {
				sym.Assert(m.CreateDatabase(dbOf(a, "d", nil)) == nil, "creating a database succeeds")
			}
		default: // of the collection that is not there
			sym.Assert(m.DropCollection(a, ca, false) == nil, "dropping a collection succeeds")
			sym.Assert(m.DropCollection(a, ca, true) == meta.ErrCollectionNotExists, "dropping a missing collection is refused")
			ids = false
		}
	})
	want := int64(4)
	if ids {
		want = 1
	}
	sym.Assert(next(a, ca) == want, "dropping a collection with its ids forgets them, and without keeps them")
	want = 4
	if how == 1 {
		want = 1
	}
	sym.Assert(next(a, cb) == want && next(b, ca) == 4 && next(b, cb) == 4, "the ids of another collection are not touched")
	inTxn(db, true, func(m *meta.Meta) {
		ds, err := m.ListDatabases()
		n := 2
		if how == 1 && left {
			n = 1
		}
		sym.Assert(err == nil && len(ds) == n, "the listing has exactly the databases that exist")
		l, err := m.ListCollections(b)
		sym.Assert(err == nil && len(l) == 2, "the listing has exactly the collections that exist")
	})
	sym.Cover("end")
}
