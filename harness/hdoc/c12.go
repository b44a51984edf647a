package hdoc

import (
	"time"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

type docSeq struct {
	s    *document.Sequence
	last uint64
}

func openDocSeq(db *store.DB, key string) (*docSeq, error) {
	s, err := document.NewSequence(db, []byte(key), uint64(small("bandwidth")))
	if s == nil {
		return nil, err
	}
	return &docSeq{s: s}, err
}

func (q *docSeq) next(g *given) {
	v, err := q.s.Next()
	if err != nil {
		return
	}
	sym.Assert(sym.And(v >= 1, v < 1<<60), "ids are positive")
	g.hand(int64(v)-1, int64(v), twice)
	sym.Assert(v > q.last, "ids increase within one object")
	q.last = v
}

// Histories of two sequence objects on one name, with one failing storage call; a slot
// opened again is a process that died. An object whose construction failed is used
// nevertheless, as document.NewDB does.
//
//sym:opt secs=100 tsecs=900
func C12_History() {
	db := store.Open()
	g := &given{}
	var o [2]*docSeq
	o[0], _ = openDocSeq(db, "k")
	sym.Assert(o[0] != nil, "a sequence object exists")
	db.All(1)
	for i := 0; i < pick(3, 5); i++ {
		w := sym.Choice("who", 2)
		if o[w] == nil {
			o[w], _ = openDocSeq(db, "k")
			continue
		}
		q := o[w]
		switch sym.Choice("op", 3) {
		case 0:
			q.next(g)
		case 1:
			q.s.ReleaseRemaining()
			sym.Cover("released")
		default:
			o[w], _ = openDocSeq(db, "k")
		}
	}
	if db.Off() > 0 {
		sym.Cover("failed")
	}
	z, err := openDocSeq(db, "k")
	sym.Assert(err == nil, "opening succeeds once storage works")
	z.next(g)
	for _, q := range o {
		if q != nil {
			q.next(g)
			q.next(g)
		}
	}
	z.next(g)
	sym.Cover("end")
}

// One object: ids are exactly 1, 2, 3, ... through renewals, and continue after a clean
// release and restart.
func C12_Dense() {
	db := store.Open()
	q, err := openDocSeq(db, "k")
	sym.Assert(err == nil, "opening succeeds")
	want := uint64(0)
	for i := 0; i < pick(5, 9); i++ {
		if sym.FixBool(sym.Bool("restart")) {
			sym.Assert(q.s.ReleaseRemaining() == nil, "releasing succeeds")
			if flip("reopen") {
				q, err = openDocSeq(db, "k")
				sym.Assert(err == nil, "opening succeeds")
				sym.Cover("restarted")
			}
			continue
		}
		v, err := q.s.Next()
		sym.Assert(err == nil, "allocating succeeds")
		want++
		sym.Assert(v == want, "numbering is continuous over renewals and clean restarts")
	}
	sym.Cover("end")
}

// From an arbitrary stored value: an arbitrary number of ids is leased, never twice.
func C12_AnyStart() {
	db := store.Open()
	seed, err := document.NewSequence(db, []byte("k"), uint64(sym.Uint32("start"))+1)
	sym.Assert(err == nil, "opening succeeds")
	v0, err := seed.Next()
	sym.Assert(err == nil, "allocating succeeds")
	sym.Assert(v0 == 1, "ids start at one")
	q, err := openDocSeq(db, "k") // the first one died
	sym.Assert(err == nil, "opening succeeds")
	a, e1 := q.s.Next()
	b, e2 := q.s.Next()
	c, e3 := seed.Next()
	sym.Assert(e1 == nil && e2 == nil && e3 == nil, "allocating succeeds")
	sym.Assert(sym.And(a > v0, b > a, c != a, c != b, c != v0), twice)
	sym.Cover("end")
}

// Sequences of different names do not affect each other.
func C12_Isolation() {
	db := store.Open()
	g, h := &given{}, &given{}
	n := sym.Bytes("name", 1+sym.Choice("len", 2))
	sym.Assume(string(n) != "k")
	a, err := openDocSeq(db, "k")
	sym.Assert(err == nil, "opening succeeds")
	b, err := openDocSeq(db, string(n))
	sym.Assert(err == nil, "opening succeeds")
	for i := 0; i < 3; i++ {
		switch sym.Choice("op", 3) {
		case 0:
			a.next(g)
		case 1:
			a.s.ReleaseRemaining()
		default:
			b.next(h)
		}
	}
	sym.Assert(b.s.ReleaseRemaining() == nil, "releasing succeeds")
	z, err := openDocSeq(db, string(n))
	sym.Assert(err == nil, "opening succeeds")
	v, err := z.s.Next()
	sym.Assert(err == nil, "allocating succeeds")
	sym.Assert(v == b.last+1, "numbering continues directly")
	sym.Cover("end")
}

// The document-id sequence of a schema-managed collection: two collections of any
// databases, any bandwidth (none means the default), crash and clean restart.
//
//sym:opt secs=60
func C12_Managed() {
	db := store.Open()
	ids := []int64{1, 11, 1<<32 + 1, 2, 12, 111}
	id := func(n string) int64 { return ids[sym.Choice(n, pick(3, 6))] }
	d1, c1, d2, c2 := id("db1"), id("c1"), id("db2"), id("c2")
	sym.Assume(d1 != d2 || c1 != c2)
	bw := int64(sym.Byte("bw")) - 3
	s1, err := meta.NewDocIDSequence(db, d1, c1, bw)
	sym.Assert(err == nil, "opening succeeds")
	s2, err := meta.NewDocIDSequence(db, d2, c2, bw)
	sym.Assert(err == nil, "opening succeeds")
	want := [2]int64{}
	for i := 0; i < pick(3, 5); i++ {
		switch sym.Choice("op", 4) {
		case 0:
			v, err := s1.Next()
			sym.Assert(err == nil, "allocating succeeds")
			want[0]++
			sym.Assert(v == want[0], "numbering is continuous")
		case 1:
			v, err := s2.Next()
			sym.Assert(err == nil, "allocating succeeds")
			want[1]++
			sym.Assert(v == want[1], "numbering is continuous")
		case 2:
			sym.Assert(s1.Close(true) == nil, "closing succeeds")
			s1, err = meta.NewDocIDSequence(db, d1, c1, bw)
			sym.Assert(err == nil, "opening succeeds")
			sym.Cover("restarted")
		default:
			// crash
			s1, err = meta.NewDocIDSequence(db, d1, c1, bw)
			sym.Assert(err == nil, "opening succeeds")
			v, err := s1.Next()
			sym.Assert(err == nil, "allocating succeeds")
			sym.Assert(v > want[0], twice)
			want[0] = v
			sym.Cover("crashed")
		}
	}
	sym.Cover("end")
}

// Bad parameters are refused and leave nothing behind.
func C12_Params() {
	db := store.Open()
	_, err := document.NewSequence(db, nil, 1)
	sym.Assert(err == document.ErrEmptyKeywordForSequence, "an empty name is refused")
	_, err = document.NewSequence(db, []byte{}, uint64(small("bandwidth")))
	sym.Assert(err == document.ErrEmptyKeywordForSequence, "an empty name is refused")
	_, err = document.NewSequence(db, []byte("k"), 0)
	sym.Assert(err == document.ErrZeroBandwidth, "a zero bandwidth is refused")
	sym.Assert(len(db.Dump()) == 0, "a refused sequence leaves nothing behind")
	// document ids have a default bandwidth
	for want := int64(1); want < 3; want++ {
		q, err := meta.NewDocIDSequence(db, 1, 1, -int64(sym.Choice("bw", 2)))
		sym.Assert(err == nil, "opening succeeds")
		v, err := q.Next()
		sym.Assert(err == nil && v == want, "ids start at one and continue")
		sym.Assert(q.ReleaseRemaining() == nil, "releasing succeeds")
	}
	sym.Cover("end")
}

// The document-id sequences of a process, as the domain side creates and drops them: with
// or without a lease, with storage failing once, and after processes that died.
//
//sym:opt secs=60
func C12_Registered() {
	if flip("leased") {
		leased(time.Second)
	}
	db := store.Open()
	const dbID = int64(3)
	cids := [2]int64{4, 41}
	var g [2]*given
	for i := range g {
		g[i] = &given{}
		defer dropSeq(cids[i])
	}
	next := func(w int) {
		if q := dml.GetSequence(cids[w]); q != nil {
			if v, err := q.Next(); err == nil {
				sym.Assert(v >= 1, "ids are positive")
				g[w].hand(v-1, v, twice)
			}
		}
	}
	bw := int64(sym.Choice("bw", 3))
	db.All(1)
	for i := 0; i < pick(3, 5); i++ {
		w := sym.Choice("who", 2)
		was := dml.GetSequence(cids[w])
		switch sym.Choice("op", 4) {
		case 0:
			err := dml.CreateSequence(db, dbID, cids[w], bw)
			if was != nil {
				sym.Assert(err == dml.ErrSequenceAlreadyExists, "a second sequence for a collection is refused")
				sym.Assert(dml.GetSequence(cids[w]) == was, "a refused sequence changes nothing")
			} else {
				sym.Assert((err == nil) == (dml.GetSequence(cids[w]) != nil), "a created sequence is there")
			}
		case 1:
			if flip("if it exists") {
				err := dml.DropSequenceIfExists(cids[w])
				sym.Assert(was != nil || err == nil, "dropping no sequence succeeds")
			} else {
				err := dml.DropSequence(cids[w])
				sym.Assert((was == nil) == (err == dml.ErrSequenceNotExists), "dropping no sequence is refused")
			}
			sym.Assert(dml.GetSequence(cids[w]) == nil, "a dropped sequence is gone")
			sym.Cover("dropped")
		default:
			next(w)
		}
	}
	if db.Off() > 0 {
		sym.Cover("failed")
	}
	for w, c := range cids {
		if dml.GetSequence(c) == nil {
			sym.Assert(dml.CreateSequence(db, dbID, c, bw) == nil, "opening succeeds once storage works")
		}
		next(w)
		next(w)
		sym.Assert(len(g[w].all) >= 2, "allocating succeeds once storage works")
	}
	sym.Cover("end")
}

// Leases of up to 2^56 ids, where the numbers no longer fit a machine word of half the
// size: with crashes and releases in any order no id comes twice, and a release leaves no
// gap.
//
//sym:opt secs=60 tsecs=300
func C12_Huge() {
	db := store.Open()
	g := &given{}
	open := func() *docSeq {
		s, err := document.NewSequence(db, []byte("k"), sym.Uint64("bandwidth")>>8+1)
		sym.Assert(err == nil, "opening succeeds")
		return &docSeq{s: s}
	}
	q := open()
	for i := 0; i < pick(3, 5); i++ {
		switch sym.Choice("op", 3) {
		case 0:
			q.next(g)
		case 1:
			sym.Assert(q.s.ReleaseRemaining() == nil, "releasing succeeds")
			last := q.last
			z := open()
			v, err := z.s.Next()
			sym.Assert(err == nil, "allocating succeeds")
			sym.Assert(sym.Or(last == 0, v == last+1), "after a release numbering continues directly")
			g.hand(int64(v)-1, int64(v), twice)
			q = &docSeq{s: z.s, last: v}
			sym.Cover("released")
		default:
			q = open()
			sym.Cover("crashed")
		}
	}
	q.next(g)
	sym.Cover("end")
}
