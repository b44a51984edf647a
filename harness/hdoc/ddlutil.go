package hdoc

import (
	"context"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// catalog is what the store says about databases.
type catalog struct {
	version int64
	dbs     []*model.DBInfo
	colls   [][]*model.CollectionInfo
	queue   []*model.Job
	history []*model.Job
	global  int64
}

func readCatalog(db mondis.KVDB) *catalog {
	t := db.NewTransaction(false)
	defer t.Discard()
	m := meta.NewMeta(t)
	c := &catalog{}
	var err error
	c.version, err = m.GetSchemaVersion()
	sym.Assert(err == nil, "reading the schema version succeeds")
	c.dbs, err = m.ListDatabases()
	sym.Assert(err == nil, "listing databases succeeds")
	for _, d := range c.dbs {
		l, err := m.ListCollections(d.ID)
		sym.Assert(err == nil, "listing collections succeeds")
		c.colls = append(c.colls, l)
	}
	c.queue, err = m.GetAllDDLJobsInQueue()
	sym.Assert(err == nil, "the queue stays readable")
	c.history, err = m.GetAllHistoryDDLJobs()
	sym.Assert(err == nil, "the history stays readable")
	c.global, err = m.GetGlobalID()
	if err != nil {
		c.global = 0
	}
	return c
}

func (c *catalog) db(name string) (*model.DBInfo, []*model.CollectionInfo) {
	for i, d := range c.dbs {
		if d.Name == name {
			return d, c.colls[i]
		}
	}
	return nil, nil
}

func (c *catalog) job(id int64) *model.Job {
	for _, j := range c.history {
		if j.ID == id {
			return j
		}
	}
	return nil
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameIndex(a, b *model.IndexInfo) bool {
	return a.ID == b.ID && a.Name == b.Name && a.Unique == b.Unique && a.State == b.State && sameStrings(a.Columns, b.Columns)
}

func sameColl(a, b *model.CollectionInfo) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.ID != b.ID || a.Name != b.Name || a.State != b.State || !sameStrings(a.IndexOrder, b.IndexOrder) || len(a.Indices) != len(b.Indices) {
		return false
	}
	for n, i := range a.Indices {
		if b.Indices[n] == nil || !sameIndex(i, b.Indices[n]) {
			return false
		}
	}
	return true
}

func sameDB(a, b *model.DBInfo) bool {
	if a.ID != b.ID || a.Name != b.Name || a.State != b.State || !sameStrings(a.CollectionOrder, b.CollectionOrder) || len(a.Collections) != len(b.Collections) {
		return false
	}
	for n, c := range a.Collections {
		if !sameColl(c, b.Collections[n]) {
			return false
		}
	}
	return true
}

// expect checks that a stored schema is exactly what was requested, and returns the ids
// of its parts.
func (c *catalog) expect(in ddl.CreateSchemaInput) (ids []int64) {
	d, cs := c.db(in.DB)
	sym.Assert(d != nil, "a created database is in the catalogue")
	ids = append(ids, d.ID)
	var order []string
	for _, n := range in.Collections {
		dup := false
		for _, o := range order {
			if o == n {
				dup = true
			}
		}
		if !dup {
			order = append(order, n)
		}
	}
	sym.Assert(sameStrings(d.CollectionOrder, order) && len(d.Collections) == len(order) && len(cs) == len(order), "the created schema contains exactly the requested collections")
	sym.Assert(d.State == public, "a created database is public")
	for _, n := range order {
		ci := d.Collections[n]
		sym.Assert(ci != nil && ci.Name == n && ci.State == public, "the created schema contains exactly the requested collections")
		ids = append(ids, ci.ID)
		found := false
		for _, x := range cs {
			if x.ID == ci.ID {
				found = sameColl(x, ci)
			}
		}
		sym.Assert(found, "the catalogue's collection entry is the one in the database entry")
		want := in.Indices[n]
		sym.Assert(len(ci.Indices) == len(want) && len(ci.IndexOrder) == len(want), "the created schema contains exactly the requested indexes")
		for i, w := range want {
			x := ci.Indices[w.Name]
			sym.Assert(x != nil && ci.IndexOrder[i] == w.Name, "the created schema contains exactly the requested indexes")
			sym.Assert(x.Name == w.Name && x.Unique == w.Unique && sameStrings(x.Columns, w.Columns) && x.State == public, "an index has the requested columns and options")
			ids = append(ids, x.ID)
		}
	}
	return
}

const public = 5 // osc.StatePublic

// distinct asserts that no id occurs twice.
func distinct(ids []int64) {
	for i := range ids {
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "every database, collection, index and job has an id of its own")
		}
	}
}

// process is one run of the database software on a store: its storage can be cut off,
// which is how it dies.
type process struct {
	db *store.DB
	d  *ddl.DDL
}

func newProcess(inner mondis.KVDB) *process {
	p := &process{db: &store.DB{Inner: inner, F: &store.Faults{}}}
	p.d = ddl.New(p.db, ddl.Options{})
	return p
}

// die ends the process: none of its storage calls ever returns again, and the
// in-memory sequences are gone.
func (p *process) die(cids ...int64) {
	p.db.Break()
	for _, cid := range cids {
		dml.DropSequenceIfExists(cid)
	}
	p.db.Hang()
}

func create(d *ddl.DDL, in ddl.CreateSchemaInput) (*model.Job, error) {
	return d.CreateSchema(context.Background(), in)
}

func dropSeq(cid int64) { dml.DropSequenceIfExists(cid) }

// dropNow forgets an in-memory sequence of a process whose storage no longer answers:
// releasing its ids would need the storage.
func dropNow(cid int64) { go dml.DropSequenceIfExists(cid) }
