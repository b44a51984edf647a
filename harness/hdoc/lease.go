package hdoc

import (
	"context"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// leased configures a schema lease: domains then look for changes made elsewhere.
func leased(l time.Duration) {
	config.Load().Lease = l
	sym.OnExit(func() { config.Load().Lease = 0 })
}

// elsewhere makes a schema change the way another process does: the store has it and its
// record, and this process is not told.
func elsewhere(db mondis.KVDB, d *model.DBInfo, recorded bool) {
	for sure := false; !sure; {
		sure = tryElsewhere(db, d, recorded)
	}
}

func tryElsewhere(db mondis.KVDB, d *model.DBInfo, recorded bool) bool {
	t := db.NewTransaction(true)
	defer t.Discard()
	m := meta.NewMeta(t)
	sym.Assert(m.CreateDatabase(d) == nil, "creating a database succeeds")
	for _, c := range d.Collections {
		sym.Assert(m.CreateCollection(d.ID, c) == nil, "creating a collection succeeds")
	}
	v, err := m.GenSchemaVersion()
	sym.Assert(err == nil, "generating a version succeeds")
	if recorded {
		sym.Assert(m.SetSchemaDiff(created(v, d)) == nil, "storing a change succeeds")
	}
	return t.Commit() == nil
}

// follow waits until a domain has had the time to see what the store has, and natively,
// where time says little about what a loaded machine has got done, until it has seen it.
func follow(do *domain.Domain, inner mondis.KVDB, name string, wait time.Duration) {
	time.Sleep(wait)
	if sym.Tries(2) == 1 {
		return
	}
	for i := 0; i < 500; i++ {
		if d, err := do.DB(name); err == nil {
			t := d.Txn(false)
			v := t.StartMetaCache().Version()
			t.Discard()
			if v == readCatalog(inner).version {
				return
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// Changes made by another process, any number at a time, recorded or not, with storage
// failures while they are looked for: a domain with a lease follows, shows what a full
// load shows, and the schemas it had before stay as they were.
//
//sym:opt secs=60
func C25_Follow() {
	lease := 400 * time.Millisecond
	leased(lease)
	inner := store.Open()
	if flip("something there before") {
		elsewhere(inner, anyDB(100, "u"), true)
	}
	r := mustBoot(inner)
	type kept struct{ cache, want *schema.MetaCache }
	var ks []kept
	n := 0
	for i := pick(2, 3); i > 0; i-- {
		k := 1 + sym.Choice("changes", pick(2, 3))
		gap := sym.Choice("not recorded", k+1)
		for j := 1; j <= k; j++ {
			id := int64(1000 * (n + 1))
			d := dbOf(id, cacheNames[n], map[string]int64{"a": id + 1})
			if j == k && i == 1 && flip("indexed") {
				d.Collections["a"].Indices["i"] = &model.IndexInfo{ID: id + 2, Name: "i", Columns: []string{"p"}, State: public}
				d.Collections["a"].IndexOrder = []string{"i"}
			}
			elsewhere(inner, d, j != gap)
			n++
		}
		fails := 0
		if i == 1 {
			fails = sym.Choice("failures", 4)
			r.db.Outage(sym.Choice("calls before the failures", 3)*fails, fails)
		}
		wait := lease/2*time.Duration(fails+1) + lease/4
		if fails > 0 {
			time.Sleep(wait)
			wait = 0
			r.db.Outage(0, 0)
		}
		follow(r.do, inner, cacheNames[n-1], wait)
		c := cacheOf(r.do, cacheNames[n-1])
		sameCache(c, stored(inner))
		ks = append(ks, kept{c, stored(inner)})
	}
	for _, k := range ks {
		sameCache(k.cache, k.want)
	}
	// what transactions of the past have to know about
	for i, a := range ks {
		for _, b := range ks[i+1:] {
			h := schema.NewHandle()
			sym.Assert(h.Update(context.Background(), b.cache) == nil, "updating the schema succeeds")
			c := readCatalog(inner)
			for _, d := range c.dbs {
				for _, ci := range d.Collections {
					if !a.cache.CheckDBExists(d.Name) && b.cache.CheckDBExists(d.Name) {
						ok, err := h.Check(context.Background(), a.cache, map[int64]struct{}{ci.ID: {}})
						sym.Assert(err == nil && !ok, "a change of a used collection is seen")
						sym.Cover("checked")
					}
				}
			}
		}
	}
	r.crash()
	sym.Cover("end")
}

// With a lease configured: creations, inserts and restarts in any order.
//
//sym:opt secs=60
func C29_Lease() {
	leased([]time.Duration{time.Millisecond * 20, time.Second, 3 * time.Second}[sym.Choice("lease", 3)])
	inner := store.Open()
	r := mustBoot(inner)
	ins := []ddl.CreateSchemaInput{
		{DB: "x", Collections: []string{"a", "b"}, Indices: map[string][]ddl.IndexInfo{"a": {{Name: "i", Columns: []string{"p"}}}}},
		{DB: "y", Collections: []string{"a"}},
	}
	var ps []*part
	var have [2]bool
	for i := pick(4, 5); i > 0; i-- {
		switch op := sym.Choice("op", 5); op {
		case 0, 1:
			_, err := createIn(r.do, ins[op])
			if have[op] {
				sym.Assert(err != nil, "a second database of the same name is refused")
				continue
			}
			sym.Assert(err == nil, "creating a schema succeeds")
			have[op] = true
			p := parts(ins[op])
			ps = append(ps, p...)
			r.insert(p[0])
		case 2, 3:
			if len(ps) <= op-2 {
				sym.Stop()
			}
			r.insert(ps[len(ps)-1-(op-2)])
		default:
			r.crash()
			r = mustBoot(inner)
			sym.Cover("restart")
		}
	}
	r.check(ps)
	r.crash()
	r = mustBoot(inner)
	r.check(ps)
	for _, p := range ps {
		r.insert(p)
	}
	r.check(ps)
	r.crash()
	sym.Cover("end")
}

// With a lease configured: a queue of jobs of any kind.
//
//sym:opt secs=60
func C28_Lease() {
	leased([]time.Duration{time.Millisecond * 20, time.Second}[sym.Choice("lease", 2)])
	db := jobStore()
	qs := someJobs(pick(2, 3))
	enqueue(db, qs)
	p := newProcess(db.Inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	settle(db.Inner)
	finish(p, outcomes(db.Inner, qs, 0))
	sym.Cover("end")
}

// C30_Follow: a domain that looks for changes made elsewhere while it makes some itself,
// and while transactions use the schema.
//
//sym:opt secs=40 tsecs=600 steps=6000000
func C30_Follow() {
	leased(20 * time.Millisecond)
	inner := store.Open()
	r := mustBoot(inner)
	elsewhere(inner, dbOf(1000, "D0", map[string]int64{"a": 1001}), true)
	var d1 [2]int64
	sym.Interleave(1)
	var err error
	together(func() {
		_, err = createIn(r.do, ddl.CreateSchemaInput{DB: "x", Collections: []string{"a"}})
	}, func() {
		time.Sleep(10 * time.Millisecond)
		elsewhere(inner, dbOf(2000, "D1", map[string]int64{"a": 2001}), flip("recorded"))
		follow(r.do, inner, "D1", 10*time.Millisecond)
		d, derr := r.do.DB("D0")
		sym.Assert(derr == nil, "what was created elsewhere is seen in time")
		t := d.Txn(false)
		d1[0] = t.StartMetaCache().Version()
		t.Discard()
	})
	sym.Assert(err == nil, "creating a schema succeeds")
	follow(r.do, inner, "x", 40*time.Millisecond)
	for _, n := range []string{"x", "D0", "D1"} {
		sameCache(cacheOf(r.do, n), stored(inner))
	}
	r.crash()
	sym.Cover("end")
}

// Another process changes the schema while a domain loads it, for the first time or again,
// all of it or what changed: between any two of its storage calls. What the domain shows is
// the schema of one version, and it can be brought to the next ones.
//
//sym:opt secs=60
func C25_Snapshot() {
	lease := 400 * time.Millisecond
	leased(lease)
	inner := store.Open()
	n := 0
	next := func(recorded bool) string {
		id := int64(1000 * (n + 1))
		elsewhere(inner, dbOf(id, cacheNames[n], map[string]int64{"a": id + 1}), recorded)
		n++
		return cacheNames[n-1]
	}
	first := next(flip("recorded"))
	r := boot(inner)
	again := flip("loaded before")
	if again {
		sym.Assert(r.do.Init() == nil, "starting a domain succeeds")
		follow(r.do, inner, first, 0)
		next(flip("recorded"))
	}
	old := stored(inner)
	var late string
	twice := flip("twice")
	var mu sync.Mutex
	over := false
	r.db.Before(1+sym.Choice("call", pick(8, 14)), func() {
		mu.Lock()
		defer mu.Unlock()
		if over {
			return
		}
		late = next(flip("recorded"))
		if twice {
			late = next(true)
		}
	})
	if !again {
		sym.Assert(r.do.Init() == nil, "starting a domain succeeds")
	} else {
		time.Sleep(lease/2 + lease/4)
	}
	shown := func(c *schema.MetaCache) {
		mu.Lock()
		defer mu.Unlock()
		full := stored(inner)
		for i, name := range cacheNames[:n] {
			sym.Assert(c.CheckDBExists(name) == (int64(i) < c.Version()), "the schema shown is that of its version")
		}
		sym.Assert(c.Version() <= full.Version(), "the schema shown is that of its version")
		if c.Version() == full.Version() {
			sameCache(c, full)
			sym.Cover("new")
		} else if c.Version() == old.Version() {
			sameCache(c, old)
			sym.Cover("old")
		}
	}
	shown(cacheOf(r.do, first))
	mu.Lock()
	over = true
	mu.Unlock()
	if late == "" {
		late = next(true)
		sym.Cover("not during the load")
	}
	last := next(true)
	follow(r.do, inner, last, lease)
	c := cacheOf(r.do, last)
	shown(c)
	sameCache(c, stored(inner))
	r.crash()
	sym.Cover("end")
}
