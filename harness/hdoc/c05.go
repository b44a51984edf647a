package hdoc

import (
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

const (
	kDoc = iota
	kIndexName
	kColumns
	kSequence
	kCName
	kIndex
	nKinds
)

// ident is an arbitrary identifier of one object.
type ident struct {
	kind   int
	a, b   int64
	s      string
	fields []document.IndexField
}

func anyIdent(n string, kind, max int) (id ident) {
	id.kind = kind
	switch kind {
	case kDoc:
		id.a, id.b = sym.Int64(n+".cid"), sym.Int64(n+".did")
	case kIndexName:
		id.a, id.s = sym.Int64(n+".cid"), str(n+".name", max)
	case kColumns:
		id.a = sym.Int64(n + ".cid")
		id.fields = fields(n+".f", 2, 2)
	case kSequence, kCName:
		id.s = str(n+".name", max)
	default:
		id.a = sym.Int64(n + ".iid")
	}
	return
}

// fields is an arbitrary list of up to max columns with pairwise different names.
func fields(n string, max, nameLen int) (fs []document.IndexField) {
	k := 1 + sym.Choice(n+".n", max)
	for i := 0; i < k; i++ {
		f := document.IndexField{Name: str(n+".name", nameLen), Desc: sym.Bool(n + ".desc")}
		for _, g := range fs {
			sym.Assume(sym.Not(eqs(f.Name, g.Name)))
		}
		fs = append(fs, f)
	}
	return
}

func clone(fs []document.IndexField) []document.IndexField {
	return append([]document.IndexField(nil), fs...)
}

// same tells whether two identifiers of one kind denote the same object. The direction
// of a single column is not part of its identity.
func same(x, y ident) bool {
	switch x.kind {
	case kDoc:
		return sym.And(x.a == y.a, x.b == y.b)
	case kIndexName:
		return sym.And(x.a == y.a, eqs(x.s, y.s))
	case kColumns:
		return sym.And(x.a == y.a, sameCols(x.fields, y.fields))
	case kSequence, kCName:
		return eqs(x.s, y.s)
	}
	return x.a == y.a
}

func sameCols(x, y []document.IndexField) bool {
	if len(x) != len(y) {
		return false
	}
	if len(x) == 1 {
		return eqs(x[0].Name, y[0].Name)
	}
	r := true
	for _, f := range x {
		in := false
		for _, g := range y {
			in = sym.Or(in, sym.And(eqs(f.Name, g.Name), f.Desc == g.Desc))
		}
		r = sym.And(r, in)
	}
	return r
}

func (id ident) key(buf []byte) []byte {
	switch id.kind {
	case kDoc:
		return document.EncodeCollectionDocumentKey(buf, id.a, id.b)
	case kIndexName:
		return document.EncodeCollectionIndexName2IDKey(buf, id.a, id.s)
	case kColumns:
		return document.EncodeCollectionColumnsIndexedKey(buf, id.a, clone(id.fields))
	case kSequence:
		return document.EncodeMetaSequenceKey(buf, []byte(id.s))
	case kCName:
		return document.EncodeMetaCollectionName2IDKey(buf, id.s)
	}
	return document.EncodeMetaIndexKey(buf, id.a)
}

func (id ident) dmlKey(buf []byte) []byte {
	switch id.kind {
	case kDoc:
		return dml.EncodeCollectionDocumentKey(buf, id.a, id.b)
	case kIndexName:
		return dml.EncodeCollectionIndexName2IDKey(buf, id.a, id.s)
	case kSequence:
		return dml.EncodeMetaSequenceKey(buf, []byte(id.s))
	case kCName:
		return dml.EncodeMetaCollectionName2IDKey(buf, id.s)
	}
	return dml.EncodeMetaIndexKey(buf, id.a)
}

// Any two keys of the document database: equal exactly when they denote the same object.
func C05_Distinct() {
	max := pick(3, 9)
	k1 := sym.Choice("kind1", nKinds)
	k2 := sym.Choice("kind2", nKinds)
	sym.Assume(k1 <= k2)
	x, y := anyIdent("x", k1, max), anyIdent("y", k2, max)
	a, b := x.key(nil), y.key(nil)
	if k1 != k2 {
		sym.Assert(sym.Not(eq(a, b)), "keys of different kinds of object differ")
		sym.Cover("different kinds")
	} else {
		sym.Assert(sym.Iff(same(x, y), eq(a, b)), "keys are equal exactly for the same object")
		sym.Cover("same kind")
	}
	if k1 != kColumns && k2 != kColumns {
		c, d := x.dmlKey(nil), y.dmlKey(nil)
		if k1 != k2 {
			sym.Assert(sym.Not(eq(c, d)), "keys of different kinds of object differ (schema-managed)")
		} else {
			sym.Assert(sym.Iff(same(x, y), eq(c, d)), "keys are equal exactly for the same object (schema-managed)")
		}
	}
}

// Keys are appended to the buffer they are given.
func C05_Append() {
	id := anyIdent("x", sym.Choice("kind", nKinds), 2)
	n := sym.Choice("buf", 3)
	b := make([]byte, n, n+8*sym.Choice("spare", 6))
	for i := range b {
		b[i] = sym.Byte("b")
	}
	was := append([]byte(nil), b...)
	plain := id.key(nil)
	got := id.key(b)
	if n == 0 && cap(b) == 0 {
		b = nil
	}
	sym.Assert(len(got) == n+len(plain), "the key is appended to the buffer")
	sym.Assert(sym.And(eq(got[:n], was), eq(got[n:], plain)), "the key is appended to the buffer")
	if id.kind != kColumns {
		sym.Assert(eq(id.dmlKey(nil), id.dmlKey([]byte{})), "the key does not depend on the buffer")
	}
	sym.Cover("end")
}

// Keys of one collection and kind carry that collection's prefix and nothing else does.
func C05_Grouped() {
	max := pick(3, 9)
	cid := sym.Int64("cid")
	x := anyIdent("x", sym.Choice("kind", nKinds), max)
	inColl := x.kind == kDoc || x.kind == kIndexName || x.kind == kColumns
	key := x.key(nil)
	docPre := document.AppendCollectionDocumentPrefix(nil, cid)
	inPre := document.AppendCollectionIndexNamePrefix(nil, cid)
	idPre := document.AppendCollectionIndexDataPrefix(nil, cid)
	sym.Assert(sym.Iff(x.kind == kDoc && x.a == cid, pre(key, docPre)), "the document prefix covers exactly the collection's documents")
	sym.Assert(sym.Iff(x.kind == kIndexName && x.a == cid, pre(key, inPre)), "the index-name prefix covers exactly the collection's index names")
	sym.Assert(sym.Not(pre(key, idPre)), "no other key lies under the index data prefix")
	if inColl {
		sym.Cover("collection key")
	} else {
		sym.Cover("meta key")
	}
	if x.kind != kColumns {
		dk := x.dmlKey(nil)
		sym.Assert(sym.Iff(x.kind == kDoc && x.a == cid, pre(dk, dml.AppendCollectionDocumentPrefix(nil, cid))), "the document prefix covers exactly the collection's documents (schema-managed)")
		sym.Assert(sym.Iff(x.kind == kIndexName && x.a == cid, pre(dk, dml.AppendCollectionIndexNamePrefix(nil, cid))), "the index-name prefix covers exactly the collection's index names (schema-managed)")
		sym.Assert(sym.Not(pre(dk, dml.AppendCollectionIndexDataPrefix(nil, cid))), "no other key lies under the index data prefix (schema-managed)")
	}
}

// Document keys of a collection sort by document id; decoding returns the identifiers.
func C05_OrderAndDecode() {
	cid, d1, d2 := sym.Int64("cid"), sym.Int64("d1"), sym.Int64("d2")
	if flip("dml") {
		a, b := dml.EncodeCollectionDocumentKey(nil, cid, d1), dml.EncodeCollectionDocumentKey(nil, cid, d2)
		sym.Assert(sym.Iff(d1 < d2, sym.LessBytes(a, b)), "document keys sort by document id (schema-managed)")
		c, d, err := dml.DecodeCollectionDocumentKey(a)
		sym.Assert(err == nil, "a document key decodes")
		sym.Assert(sym.And(c == cid, d == d1), "decoding a document key returns its identifiers")
		nm := str("name", pick(9, 25))
		c, n, err := dml.DecodeCollectionIndexName2IDKey(dml.EncodeCollectionIndexName2IDKey(nil, cid, nm))
		sym.Assert(err == nil, "an index-name key decodes")
		sym.Assert(sym.And(c == cid, eqs(string(n), nm)), "decoding an index-name key returns its identifiers")
		sym.Cover("dml")
		return
	}
	a, b := document.EncodeCollectionDocumentKey(nil, cid, d1), document.EncodeCollectionDocumentKey(nil, cid, d2)
	sym.Assert(sym.Iff(d1 < d2, sym.LessBytes(a, b)), "document keys sort by document id")
	nm := str("name", pick(9, 25))
	c, n, err := document.DecodeCollectionIndexName2IDKey(document.EncodeCollectionIndexName2IDKey(nil, cid, nm))
	sym.Assert(err == nil, "an index-name key decodes")
	sym.Assert(sym.And(c == cid, eqs(string(n), nm)), "decoding an index-name key returns its identifiers")
	sym.Cover("document")
}

// The order in which columns are listed does not matter. Three columns with names of
// up to one byte, and two with longer ones.
func C05_Columns() {
	cid := sym.Int64("cid")
	k, l := 3, 1
	if flip("two") {
		k, l = 2, pick(2, 4)
	}
	var fs []document.IndexField
	for i := 0; i < k; i++ {
		f := document.IndexField{Name: str("name", l), Desc: sym.Bool("desc")}
		for _, g := range fs {
			sym.Assume(sym.Not(eqs(f.Name, g.Name)))
		}
		fs = append(fs, f)
	}
	perm := clone(fs)
	for i := k - 1; i > 0; i-- {
		j := sym.Choice("swap", i+1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	a := document.EncodeCollectionColumnsIndexedKey(nil, cid, clone(fs))
	b := document.EncodeCollectionColumnsIndexedKey(nil, cid, perm)
	sym.Assert(eq(a, b), "listing the columns in another order gives the same entry")
	sym.Cover("end")
}

// Long column names, whose length needs more than one byte.
func C05_LongColumns() {
	n1, n2 := 63+sym.Choice("n1", 3), 63+sym.Choice("n2", 3)
	x := ident{kind: kColumns, fields: []document.IndexField{{Name: string(sym.Bytes("x", n1))}, {Name: "a"}}}
	y := ident{kind: kColumns, fields: []document.IndexField{{Name: string(sym.Bytes("y", n2))}, {Name: "a"}}}
	sym.Assume(x.fields[0].Name[0] != 'a' && y.fields[0].Name[0] != 'a')
	sym.Assert(sym.Iff(same(x, y), eq(x.key(nil), y.key(nil))), "keys are equal exactly for the same object")
	sym.Cover("end")
}

// longName is a name of some length around the powers of two: a common concrete middle
// between an arbitrary first byte and an arbitrary end.
func longName(n string, first byte, size, end int) string {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte('a' + i%25)
	}
	b[0] = first
	return string(append(b, str(n, end)...))
}

// Long names that begin alike: keys are equal exactly for the same name, and lie under the
// right prefixes.
//
//sym:opt secs=60
func C05_LongNames() {
	sizes := []int{15, 16, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000}
	if sym.Thorough() {
		sizes = append(sizes, 8, 17, 33, 40, 65, 129, 257, 4096, 16384, 65536)
	}
	size := sizes[sym.Choice("size", len(sizes))]
	kind := []int{kIndexName, kSequence, kCName}[sym.Choice("kind", 3)]
	cx, cy := sym.Int64("cid"), sym.Int64("cid")
	x := ident{kind: kind, a: cx, s: longName("x", sym.Byte("first"), size, pick(1, 9))}
	y := ident{kind: kind, a: cy, s: longName("y", sym.Byte("first"), size, pick(1, 9))}
	sym.Assert(sym.Iff(same(x, y), eq(x.key(nil), y.key(nil))), "keys are equal exactly for the same object")
	sym.Assert(sym.Iff(same(x, y), eq(x.dmlKey(nil), y.dmlKey(nil))), "keys are equal exactly for the same object (schema-managed)")
	if kind == kIndexName {
		sym.Assert(sym.Iff(cx == cy, pre(x.key(nil), document.AppendCollectionIndexNamePrefix(nil, cy))), "the index-name prefix covers exactly the collection's index names")
		c, n, err := document.DecodeCollectionIndexName2IDKey(x.key(nil))
		sym.Assert(err == nil && c == cx && eqs(string(n), x.s), "decoding an index-name key returns its identifiers")
		c, n, err = dml.DecodeCollectionIndexName2IDKey(x.dmlKey(nil))
		sym.Assert(err == nil && c == cx && eqs(string(n), x.s), "decoding an index-name key returns its identifiers")
	}
	sym.Cover("end")
}

// Many columns with names of any length, in any rotation or reversed: equal exactly for the
// same columns.
//
//sym:opt secs=60
func C05_ManyColumns() {
	n := []int{5, 9, 13, 20, 40}[sym.Choice("n", pick(5, 5))]
	size := []int{1, 20, 70}[sym.Choice("size", 3)]
	cid := sym.Int64("cid")
	var x, y []document.IndexField
	at := []int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	for i := 0; i < n; i++ {
		f := document.IndexField{Name: longName("x", '0', size, 0) + string([]byte{byte(i)}), Desc: i%3 == 0}
		x = append(x, f)
		if i == at {
			f.Desc = sym.Bool("desc")
			switch sym.Choice("other", 3) {
			case 1:
				f.Name = f.Name[:len(f.Name)-1] + string([]byte{byte(n), sym.Byte("name")})
			case 2:
				f.Name = string(sym.Bytes("begin", 1)) + f.Name[1:]
			}
		}
		y = append(y, f)
	}
	rot := []int{0, 1, n / 3}[sym.Choice("rotate", 3)]
	y = append(append([]document.IndexField(nil), y[rot:]...), y[:rot]...)
	if flip("reverse") {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			y[i], y[j] = y[j], y[i]
		}
	}
	keep := clone(y)
	a := document.EncodeCollectionColumnsIndexedKey(nil, cid, x)
	b := document.EncodeCollectionColumnsIndexedKey(nil, cid, y)
	sym.Assert(sym.Iff(sameCols(x, y), eq(a, b)), "keys are equal exactly for the same object")
	for i := range y {
		sym.Assert(y[i] == keep[i], "the caller's columns are left alone")
	}
	sym.Cover("end")
}
