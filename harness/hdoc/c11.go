package hdoc

import (
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// span is the ids (lo, hi].
type span struct{ lo, hi int64 }

// given is everything handed out so far.
type given struct {
	all  []span
	back []int64
}

// hand records new ids: none of them may have been handed out before.
func (g *given) hand(lo, hi int64, what string) {
	sym.Assert(sym.And(lo >= 0, lo <= hi), "ids are positive")
	fresh := true
	for _, s := range g.all {
		fresh = sym.And(fresh, sym.Or(lo == hi, s.lo == s.hi, hi <= s.lo, s.hi <= lo))
	}
	sym.Assert(fresh, what)
	g.all = append(g.all, span{lo, hi})
}

const twice = "no id is handed out twice"

type seqObj struct {
	q      *sequence.Sequence
	last   int64 // highest id this object has handed out
	closed bool
}

// count is an arbitrary number of requested ids, small one of at least one.
func count(n string) int64 {
	if sym.Thorough() {
		return int64(sym.Uint16(n))
	}
	return int64(sym.Byte(n))
}

func small(n string) int64 { return count(n) + 1 }

func openSeq(db *store.DB, hash bool, key, field string) (*seqObj, error) {
	bw := small("bandwidth")
	if hash {
		s, err := sequence.NewHash(db, []byte(key), []byte(field), bw)
		if err != nil {
			return nil, err
		}
		return &seqObj{q: &s.Sequence}, nil
	}
	s, err := sequence.NewString(db, []byte(key), bw)
	if err != nil {
		return nil, err
	}
	return &seqObj{q: &s.Sequence}, nil
}

// next allocates one id (not one that was put back).
func (o *seqObj) next(g *given) {
	v, err := o.q.Next()
	if o.closed {
		sym.Assert(err == sequence.ErrSequenceClosed, "a closed sequence refuses use")
		return
	}
	if err != nil {
		return
	}
	g.hand(v-1, v, twice)
	sym.Assert(v > o.last, "ids increase within one object")
	o.last = v
}

// nextN allocates an arbitrary number of ids.
func (o *seqObj) nextN(g *given) { o.manyN(g, count("n")) }

func (o *seqObj) manyN(g *given, n int64) {
	rs, err := o.q.NextN(n)
	if o.closed {
		sym.Assert(err == sequence.ErrSequenceClosed || n == 0, "a closed sequence refuses use")
		return
	}
	if err != nil {
		sym.Assert(len(rs) == 0, "a failed allocation hands out nothing")
		return
	}
	sym.Assert(len(rs) <= 2, "at most two ranges")
	var sum int64
	for _, r := range rs {
		sym.Assert(r.Start <= r.End, "ranges are well formed")
		sum += r.End - r.Start
		g.hand(r.Start, r.End, "no id is handed out twice (several at once)")
		sym.Assert(sym.Or(r.Start == r.End, r.Start >= o.last), "ids increase within one object")
		o.last = sym.IteInt64(r.Start == r.End, o.last, r.End)
	}
	sym.Assert(sum == n, "exactly the requested number of ids")
	if len(rs) == 2 {
		sym.Cover("two ranges")
	}
}

// Histories of two sequence objects on one name. A slot that is opened again stands
// for a process that died without closing its object. One commit, read or write may fail.
func history(hash bool, steps int) {
	db := store.Open()
	g := &given{}
	var o [2]*seqObj
	o[0], _ = openSeq(db, hash, "k", "f")
	db.All(1)
	for i := 0; i < steps; i++ {
		w := sym.Choice("who", 2)
		if o[w] == nil {
			o[w], _ = openSeq(db, hash, "k", "f")
			if o[w] == nil {
				sym.Cover("opening failed")
			}
			continue
		}
		q := o[w]
		switch sym.Choice("op", 6) {
		case 0:
			q.next(g)
		case 1:
			q.nextN(g)
		case 2:
			err := q.q.ReleaseRemaining()
			sym.Assert(sym.Implies(q.closed, err == sequence.ErrSequenceClosed), "a closed sequence refuses use")
			if err == nil {
				sym.Cover("released")
			}
		case 3:
			err := q.q.ReNew()
			sym.Assert(sym.Implies(q.closed, err == sequence.ErrSequenceClosed), "a closed sequence refuses use")
		case 4:
			err := q.q.Close(flip("release"))
			sym.Assert(sym.Implies(q.closed, err == sequence.ErrSequenceClosed), "a closed sequence refuses use")
			q.closed = true
			sym.Cover("closed")
		case 5:
			o[w], _ = openSeq(db, hash, "k", "f")
		}
	}
	// whatever happened, one more object gets fresh ids
	db.Off()
	z, err := openSeq(db, hash, "k", "f")
	sym.Assert(err == nil, "opening succeeds once storage works")
	z.next(g)
	z.nextN(g)
	for _, q := range o {
		if q != nil && !q.closed {
			q.next(g)
		}
	}
	sym.Cover("end")
}

//sym:opt secs=100 tsecs=900
func C11_HashHistory() { history(true, pick(3, 4)) }

//sym:opt secs=100 tsecs=900
func C11_StringHistory() { history(false, pick(3, 4)) }

// One object, longer histories of allocations and releases.
//
//sym:opt secs=60 tsecs=600
func C11_Long() {
	db := store.Open()
	g := &given{}
	q, err := openSeq(db, flip("hash"), "k", "f")
	sym.Assert(err == nil, "opening succeeds")
	for i := 0; i < pick(5, 8); i++ {
		switch sym.Choice("op", 3) {
		case 0:
			q.next(g)
		case 1:
			q.nextN(g)
		default:
			sym.Assert(q.q.ReleaseRemaining() == nil, "releasing succeeds")
		}
	}
	sym.Cover("end")
}

// A clean release leaves no gap.
func C11_Release() {
	db := store.Open()
	g := &given{}
	hash := flip("hash")
	q, err := openSeq(db, hash, "k", "f")
	sym.Assert(err == nil, "opening succeeds")
	for i := sym.Choice("before", 3); i > 0; i-- {
		q.nextN(g)
	}
	if flip("close") {
		sym.Assert(q.q.Close(true) == nil, "closing succeeds")
	} else {
		sym.Assert(q.q.ReleaseRemaining() == nil, "releasing succeeds")
	}
	z, err := openSeq(db, hash, "k", "f")
	sym.Assert(err == nil, "opening succeeds")
	v, err := z.q.Next()
	sym.Assert(err == nil, "allocating succeeds")
	sym.Assert(v == q.last+1, "after a release numbering continues directly")
	sym.Cover("end")
}

// Ids that are put back are handed out again, each put-back once.
func C11_PutBack() {
	db := store.Open()
	q, err := openSeq(db, flip("hash"), "k", "f")
	sym.Assert(err == nil, "opening succeeds")
	var out, free, hand []int64
	for i := 0; i < pick(6, 7); i++ {
		if len(out) > 0 && flip("put") {
			j := sym.Choice("which", len(out))
			v := out[j]
			out = append(append([]int64(nil), out[:j]...), out[j+1:]...)
			free = append(free, v)
			hand = append(hand[:0], v) // the caller keeps its slice
			if len(out) > 0 && flip("two") {
				v := out[len(out)-1]
				out = out[:len(out)-1]
				free = append(free, v)
				hand = append(hand, v)
			}
			q.q.PutBack(hand...)
			sym.Cover("put back")
			continue
		}
		v, err := q.q.Next()
		sym.Assert(err == nil, "allocating succeeds")
		sym.Assert(v >= 1, "ids are positive")
		for _, x := range out {
			sym.Assert(v != x, "an id is not handed out while it is in use")
		}
		out = append(out, v)
	}
	if flip("clear") {
		sym.Assert(q.q.Clear() == nil, "clearing succeeds")
		out = nil
		for i := 0; i < 4; i++ {
			v, err := q.q.Next()
			sym.Assert(err == nil, "allocating succeeds")
			for _, x := range out {
				sym.Assert(v != x, "after clearing an id is handed out once")
			}
			out = append(out, v)
		}
		sym.Cover("cleared")
	}
}

// No operation on one sequence touches another sequence or record.
//
//sym:opt secs=60 tsecs=300
func C11_Isolation() {
	db := store.Open()
	g, h := &given{}, &given{}
	a, err := openSeq(db, flip("hash a"), "k", "f")
	sym.Assert(err == nil, "opening succeeds")
	var b *seqObj
	switch sym.Choice("other", 4) {
	case 0:
		b, err = openSeq(db, true, "k", "g")
	case 1:
		b, err = openSeq(db, true, "k\x00", "f")
	case 2:
		b, err = openSeq(db, false, "kf", "")
	default:
		b, err = openSeq(db, true, "kf", "f")
	}
	sym.Assert(err == nil, "opening succeeds")
	b.nextN(h)
	b.q.ReleaseRemaining()
	for i := 0; i < 2; i++ {
		switch sym.Choice("op", 5) {
		case 0:
			a.nextN(g)
		case 1:
			sym.Assert(a.q.ReleaseRemaining() == nil, "releasing succeeds")
		case 2:
			sym.Assert(a.q.Clear() == nil, "clearing succeeds")
			a.last = 0
			g = &given{}
		case 3:
			sym.Assert(a.q.ReNew() == nil, "renewing succeeds")
		default:
			a.next(g)
		}
	}
	v, err := b.q.Next()
	sym.Assert(err == nil, "allocating succeeds")
	sym.Assert(v == b.last+1, "another sequence continues undisturbed")
	sym.Cover("end")
}

// Bad parameters are refused.
func C11_Params() {
	db := store.Open()
	_, err := sequence.NewHash(db, nil, []byte("f"), 1)
	sym.Assert(err == sequence.ErrEmptyKeyForHashSequence, "an empty name is refused")
	_, err = sequence.NewHash(db, []byte("k"), nil, 1)
	sym.Assert(err == sequence.ErrEmptyFieldForHashSequence, "an empty field is refused")
	_, err = sequence.NewHash(db, []byte("k"), []byte("f"), 0)
	sym.Assert(err == sequence.ErrZeroBandwidth, "a zero bandwidth is refused")
	_, err = sequence.NewString(db, nil, 1)
	sym.Assert(err == sequence.ErrEmptyKeywordForStringSequence, "an empty name is refused")
	_, err = sequence.NewString(db, []byte("k"), 0)
	sym.Assert(err == sequence.ErrZeroBandwidth, "a zero bandwidth is refused")
	sym.Assert(len(db.Dump()) == 0, "a refused sequence leaves nothing behind")
	sym.Cover("end")
}

// Counts and bandwidths of up to 2^40, where the numbers no longer fit a machine word of
// half the size.
//
//sym:opt secs=60 tsecs=300 numtext=1
func C11_Huge() {
	db := store.Open()
	g := &given{}
	hash := flip("hash")
	huge := func(n string) int64 { return int64(sym.Uint64(n)>>24) + 1 }
	open := func() *seqObj {
		bw := huge("bandwidth")
		if hash {
			s, err := sequence.NewHash(db, []byte("k"), []byte("f"), bw)
			sym.Assert(err == nil, "opening succeeds")
			return &seqObj{q: &s.Sequence}
		}
		s, err := sequence.NewString(db, []byte("k"), bw)
		sym.Assert(err == nil, "opening succeeds")
		return &seqObj{q: &s.Sequence}
	}
	q := open()
	for i := 0; i < pick(2, 3); i++ {
		switch sym.Choice("op", 4) {
		case 0:
			q.next(g)
		case 1:
			q.manyN(g, huge("n"))
		case 2:
			sym.Assert(q.q.ReleaseRemaining() == nil, "releasing succeeds")
		default:
			q = open()
		}
	}
	q.next(g)
	sym.Cover("end")
}
