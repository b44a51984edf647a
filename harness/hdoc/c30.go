package hdoc

import (
	"context"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// together runs calls concurrently until all have returned.
func together(calls ...func()) {
	var wg sync.WaitGroup
	for _, f := range calls {
		wg.Add(1)
		f := f
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// again repeats natively what depends on the scheduler.
func again(f func(i int)) {
	t0 := time.Now()
	for i := 0; i < sym.Tries(400) && time.Since(t0) < 15*time.Second; i++ {
		sym.Round()
		f(i)
	}
}

func unlike(ids []uint64) {
	for i := range ids {
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "concurrent callers of a sequence get distinct ids")
		}
	}
}

// C30_Sequence: callers of one sequence, one of which may give the rest of a lease back.
//
//sym:opt secs=60
func C30_Sequence() {
	db := store.Open()
	bw := uint64(1 + sym.Choice("bandwidth", 3))
	release := sym.Choice("release", 3)
	n := pick(2, 3)
	sym.Interleave(2)
	again(func(try int) {
		key := []byte("s" + strconv.Itoa(try))
		s, err := document.NewSequence(db, key, bw)
		sym.Assert(err == nil, "opening a sequence succeeds")
		ids := make([][]uint64, n)
		var calls []func()
		for i := 0; i < n; i++ {
			i := i
			calls = append(calls, func() {
				for k := 0; k < 2; k++ {
					if i == 0 && release == k+1 {
						sym.Assert(s.ReleaseRemaining() == nil, "releasing succeeds")
						sym.Cover("released")
					}
					id, err := s.Next()
					sym.Assert(err == nil, "allocating succeeds")
					ids[i] = append(ids[i], id)
				}
			})
		}
		together(calls...)
		var all []uint64
		for _, x := range ids {
			all = append(all, x...)
		}
		s, err = document.NewSequence(db, key, bw)
		sym.Assert(err == nil, "opening a sequence succeeds")
		id, err := s.Next()
		sym.Assert(err == nil, "allocating succeeds")
		unlike(append(all, id))
	})
	sym.Cover("end")
}

// C30_Meta: callers of one schema-side sequence: one id, several, some put back, the
// rest released, the sequence closed.
//
//sym:opt secs=90
func C30_Meta() {
	db := store.Open()
	hash := flip("hash")
	bw := int64(1 + sym.Choice("bandwidth", 3))
	n := 2
	ops := make([][]int, n)
	closes := false
	for i := range ops {
		for k := 0; k < pick(2, 3); k++ {
			op := 0
			if i == 0 || k > 0 {
				op = sym.Choice("op", 5)
			}
			ops[i] = append(ops[i], op)
			closes = closes || op == 4
		}
	}
	sym.Interleave(2)
	again(func(try int) {
		open := func() *sequence.Sequence {
			key := []byte("s" + strconv.Itoa(try))
			if hash {
				s, err := sequence.NewHash(db, key, []byte("f"), bw)
				sym.Assert(err == nil, "opening a sequence succeeds")
				return &s.Sequence
			}
			s, err := sequence.NewString(db, key, bw)
			sym.Assert(err == nil, "opening a sequence succeeds")
			return &s.Sequence
		}
		s := open()
		held := make([][]uint64, n)
		var calls []func()
		for i := 0; i < n; i++ {
			i := i
			calls = append(calls, func() {
				for _, op := range ops[i] {
					var err error
					switch op {
					case 0:
						var id int64
						if id, err = s.Next(); err == nil {
							held[i] = append(held[i], uint64(id))
						}
					case 1:
						var rs []sequence.IDRange
						if rs, err = s.NextN(2); err == nil {
							for _, r := range rs {
								for id := r.Start + 1; id <= r.End; id++ {
									held[i] = append(held[i], uint64(id))
								}
							}
						}
					case 2:
						if k := len(held[i]) - 1; k >= 0 {
							id := held[i][k]
							held[i] = held[i][:k]
							s.PutBack(int64(id))
							sym.Cover("put back")
						}
					case 3:
						err = s.ReleaseRemaining()
					case 4:
						err = s.Close(true)
					}
					if err != nil {
						sym.Assert(closes && err == sequence.ErrSequenceClosed, "a sequence fails only when it is closed")
						sym.Cover("closed")
					}
				}
			})
		}
		together(calls...)
		var all []uint64
		for _, x := range held {
			all = append(all, x...)
		}
		s = open()
		id, err := s.Next()
		sym.Assert(err == nil, "allocating succeeds")
		unlike(append(all, uint64(id)))
	})
	sym.Cover("end")
}

// C30_Open: concurrent openers get the same collection, and what they then store is all
// there.
//
//sym:opt secs=60
func C30_Open() {
	db := store.Open()
	n := pick(2, 3)
	which := make([]int, n)
	for i := 1; i < n; i++ {
		which[i] = sym.Choice("name", 2)
	}
	there := flip("one exists")
	insert := flip("insert")
	sym.Interleave(2)
	again(func(try int) {
		names := []string{"a" + strconv.Itoa(try), "b" + strconv.Itoa(try)}
		d := document.NewDB(db)
		if there {
			_, err := d.Collection(names[0])
			sym.Assert(err == nil, "opening succeeds")
			d.Close()
			d = document.NewDB(db)
		}
		cs := make([]*document.Collection, n)
		ids := make([]int64, n)
		var calls []func()
		for i := 0; i < n; i++ {
			i := i
			calls = append(calls, func() {
				c, err := d.Collection(names[which[i]])
				sym.Assert(err == nil && c != nil, "opening succeeds")
				cs[i] = c
				if insert {
					ids[i], err = c.InsertOne(mkdoc(int64(i)), nil)
					sym.Assert(err == nil, "inserting succeeds")
				}
			})
		}
		together(calls...)
		for i := range cs {
			for j := 0; j < i; j++ {
				sym.Assert((cs[i] == cs[j]) == (which[i] == which[j]), "concurrent openers of one collection get the same collection")
				if insert && which[i] == which[j] {
					sym.Assert(ids[i] != ids[j], "concurrent inserts get distinct ids")
				}
			}
		}
		if insert {
			for i := range cs {
				d, err := cs[i].GetOne(ids[i], nil)
				sym.Assert(err == nil && isdoc(d, int64(i)), "a concurrently inserted document is there")
				for j := range cs {
					_, err := cs[j].GetOne(ids[i], nil)
					sym.Assert((err == nil) == (which[i] == which[j] || ids[i] == ids[j]), "collections opened concurrently are separate")
				}
			}
		}
		d.Close()
		d = document.NewDB(db)
		for i := range cs {
			c, err := d.Collection(names[which[i]])
			sym.Assert(err == nil, "opening succeeds")
			if insert {
				x, err := c.GetOne(ids[i], nil)
				sym.Assert(err == nil && isdoc(x, int64(i)), "a concurrently opened collection is found again")
			}
		}
		d.Close()
	})
	sym.Cover("end")
}

// C30_Schema: checks of the schema racing with updates of it, some of them given up.
//
//sym:opt secs=60
func C30_Schema() {
	checkers := pick(2, 3)
	giveUp := sym.Choice("gives up", checkers+2)
	cid := int64(1 + sym.Choice("collection", 2))
	if giveUp <= checkers {
		sym.Interleave(pick(1, 2))
	} else {
		sym.Interleave(pick(2, 3))
	}
	again(func(int) {
		h := schema.NewHandle()
		sym.Assert(h.Update(context.Background(), schema.NewMetaCache(3, nil)) == nil, "updating the schema succeeds")
		start := h.Get()
		var updated int32
		ctx, cancel := context.WithCancel(context.Background())
		upTo := func(i int) context.Context {
			if i == giveUp {
				return ctx
			}
			return context.Background()
		}
		calls := []func(){func() {
			c := h.Get().Clone()
			sym.Assert(c.ApplyDiffs([]*model.SchemaDiff{change(4, 1)}) == nil, "applying succeeds")
			if err := h.Update(upTo(0), c); err == nil {
				atomic.StoreInt32(&updated, 1)
			} else {
				sym.Assert(giveUp == 0, "an update that is not given up succeeds")
				sym.Cover("update given up")
			}
		}}
		for i := 1; i <= checkers; i++ {
			i := i
			calls = append(calls, func() {
				before := atomic.LoadInt32(&updated) == 1
				ok, err := h.Check(upTo(i), start, map[int64]struct{}{cid: {}})
				if err != nil {
					sym.Assert(giveUp == i && !ok, "a check that is not given up is answered")
					sym.Cover("check given up")
					return
				}
				if cid != 1 {
					sym.Assert(ok, "a check of a collection that did not change passes")
				} else if before {
					sym.Assert(!ok, "a check that begins after an update completed sees it")
					sym.Cover("seen")
				} else if ok {
					sym.Cover("not yet")
				}
			})
		}
		if giveUp <= checkers {
			calls = append(calls, cancel)
		}
		together(calls...)
		cancel()
		// whoever comes later is not blocked
		sym.Assert(h.Update(context.Background(), schema.NewMetaCache(9, nil)) == nil, "updating the schema succeeds")
		ok, err := h.Check(context.Background(), h.Get(), map[int64]struct{}{1: {}})
		sym.Assert(ok && err == nil, "a check without a change passes")
	})
	sym.Cover("end")
}

// C30_Insert: automatic inserts into one schema-managed collection, in transactions
// that commit, fail or are discarded.
//
//sym:opt secs=90
func C30_Insert() {
	cid := int64(5)
	w := newWorld(int64(1+sym.Choice("bandwidth", 3)), dbOf(1, "d", map[string]int64{"c": cid}))
	c := w.coll("d", "c")
	n := pick(2, 3)
	how := make([]int, n)
	for i := range how {
		how[i] = sym.Choice("how", 3)
	}
	sym.Interleave(2)
	again(func(int) {
		ids := make([]int64, n)
		var calls []func()
		for i := 0; i < n; i++ {
			i := i
			calls = append(calls, func() {
				var err error
				if how[i] == 0 {
					ids[i], err = c.InsertOne(doc{int64(i)}, nil)
					sym.Assert(err == nil, "inserting succeeds")
					return
				}
				t := w.begin(true)
				id, err := c.InsertOne(doc{int64(i)}, t)
				sym.Assert(err == nil, "inserting succeeds")
				if how[i] == 1 {
					sym.Assert(t.Commit() == nil, "a commit without a conflict succeeds")
					ids[i] = id
				}
				t.Discard()
			})
		}
		together(calls...)
		for i := range ids {
			for j := 0; j < i; j++ {
				sym.Assert(ids[i] == 0 || ids[i] != ids[j], "concurrent inserts get distinct ids")
			}
			if ids[i] != 0 {
				var d doc
				t := w.begin(false)
				sym.Assert(c.GetOne(ids[i], &d, t) == nil && d.V == int64(i), "a concurrently inserted document is there")
				t.Discard()
			}
		}
		sym.Assert(w.db.Open_ == 0 || sym.Tries(2) > 1, "no transaction is left open")
	})
	dml.DropSequenceIfExists(cid)
	sym.Cover("end")
}

// C30_Index: indexes created concurrently on one collection.
//
//sym:opt secs=60
func C30_Index() {
	db := store.Open()
	same := flip("same name")
	drop := flip("drop")
	if drop {
		sym.Interleave(pick(1, 2))
	} else {
		sym.Interleave(2)
	}
	again(func(try int) {
		d := document.NewDB(db)
		c, err := d.Collection("c" + strconv.Itoa(try))
		sym.Assert(err == nil, "opening succeeds")
		if drop {
			_, err := c.CreateIndex(document.IndexDefinition{Name: "old", Fields: []document.IndexField{{Name: "o"}}})
			sym.Assert(err == nil, "creating an index succeeds")
		}
		names := []string{"i", "j"}
		if same {
			names[1] = "i"
		}
		got := make([]int64, 2)
		errs := make([]error, 2)
		calls := []func(){}
		for k := range names {
			k := k
			calls = append(calls, func() {
				got[k], errs[k] = c.CreateIndex(document.IndexDefinition{Name: names[k], Fields: []document.IndexField{{Name: "p"}}})
			})
		}
		if drop {
			calls = append(calls, func() {
				_, err := c.DropIndex("old")
				sym.Assert(err == nil, "dropping an index succeeds")
			})
		}
		together(calls...)
		check := func(c *document.Collection) {
			want := 0
			for k := range names {
				if errs[k] == nil {
					want++
				}
			}
			if same && errs[0] == nil && errs[1] == nil {
				want = 1
				sym.Assert(got[0] == got[1], "concurrent creators of one index get the same index")
			} else if errs[0] == nil && errs[1] == nil {
				sym.Assert(got[0] != got[1], "indexes created concurrently are distinct")
			}
			sym.Assert(len(c.GetIndexes()) == want, "the indexes created concurrently are all there")
		}
		check(c)
		d.Close()
		d = document.NewDB(db)
		c, err = d.Collection("c" + strconv.Itoa(try))
		sym.Assert(err == nil, "opening succeeds")
		check(c)
		d.Close()
	})
	sym.Cover("end")
}

// C30_DDL: concurrent schema requests, and readers, against the worker.
//
//sym:opt secs=120 steps=6000000
func C30_DDL() {
	inner := store.Open()
	p := newProcess(inner)
	sym.Assert(p.d.Init() == nil, "starting succeeds")
	same := flip("same name")
	ins := []ddl.CreateSchemaInput{{DB: "x", Collections: []string{"c"}}, {DB: "y", Collections: []string{"c"}}}
	if same {
		ins[1].DB = "x"
	}
	errs := make([]error, 2)
	jobs := make([]*model.Job, 2)
	sym.Interleave(1)
	together(func() { jobs[0], errs[0] = create(p.d, ins[0]) }, func() { jobs[1], errs[1] = create(p.d, ins[1]) })
	if same {
		sym.Assert((errs[0] == nil) != (errs[1] == nil), "of two concurrent requests for one name one succeeds")
	} else {
		sym.Assert(errs[0] == nil || errs[1] == nil, "of two concurrent requests one succeeds")
	}
	cat := readCatalog(inner)
	for i := range ins {
		d, cs := cat.db(ins[i].DB)
		if errs[i] == nil {
			sym.Assert(len(cs) == 1, "a created database has its collections")
			sym.Cover("created")
		} else if !same {
			sym.Assert(d == nil, "a refused request creates nothing")
			sym.Cover("refused")
		}
	}
	distinct(allIDs(cat))
	for _, id := range allIDs(cat) {
		dropNow(id)
	}
	sym.Cover("end")
}

// C30_IndexDrop: an index dropped while it is being created: what is listed afterwards is
// what a reopened database lists.
//
//sym:opt secs=60
func C30_IndexDrop() {
	db := store.Open()
	there := flip("there before")
	sym.Interleave(pick(2, 4))
	again(func(try int) {
		d := document.NewDB(db)
		name := "c" + strconv.Itoa(try)
		c, err := d.Collection(name)
		sym.Assert(err == nil, "opening succeeds")
		def := document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}}
		if there {
			_, err := c.CreateIndex(def)
			sym.Assert(err == nil, "creating an index succeeds")
		}
		made, gone := 0, 0
		calls := []func(){func() {
			if _, err := c.CreateIndex(def); err == nil {
				made++
			}
		}, func() {
			if exists, err := c.DropIndex("i"); err == nil && exists {
				gone++
			}
		}}
		together(calls...)
		if there {
			made++
		}
		sym.Assert(made-gone == 0 || made-gone == 1, "an index is dropped as often as it was created, or once less")
		sym.Assert(len(c.GetIndexes()) == made-gone, "the indexes created concurrently are all there, and the dropped ones are not")
		d.Close()
		d = document.NewDB(db)
		c, err = d.Collection(name)
		sym.Assert(err == nil, "opening succeeds")
		sym.Assert(len(c.GetIndexes()) == made-gone, "the list is the same after the database is reopened")
		d.Close()
	})
	sym.Cover("end")
}
