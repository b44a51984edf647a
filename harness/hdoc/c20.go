package hdoc

import (
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// ixs is the ideal list of indexes.
type ixs struct{ l []document.IndexDefinition }

func (x *ixs) byName(n string) int {
	for i := range x.l {
		if x.l[i].Name == n {
			return i
		}
	}
	return -1
}

func copyDef(d document.IndexDefinition) document.IndexDefinition {
	return document.IndexDefinition{Name: d.Name, Fields: append([]document.IndexField(nil), d.Fields...), Option: d.Option}
}

// sameColumns: the order does not matter, nor does the direction of a single column.
func sameColumns(a, b []document.IndexField) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 1 {
		return a[0].Name == b[0].Name
	}
	for _, f := range a {
		ok := false
		for _, g := range b {
			if f == g {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func sameDef(a, b document.IndexDefinition) bool {
	if a.Name != b.Name || a.Option != b.Option || len(a.Fields) != len(b.Fields) {
		return false
	}
	for i := range a.Fields {
		if a.Fields[i] != b.Fields[i] {
			return false
		}
	}
	return true
}

func (x *ixs) check(c *document.Collection) {
	l := c.GetIndexes()
	sym.Assert(len(l) == len(x.l), "exactly the created and not dropped indexes are listed")
	for _, d := range l {
		i := x.byName(d.Name)
		sym.Assert(i >= 0, "a listed index was created and not dropped")
		sym.Assert(sameDef(d, x.l[i]), "a listed index has the name, fields and options it was created with")
	}
}

// anyDef is a definition over two names and the columns p, q.
func anyDef() document.IndexDefinition {
	d := document.IndexDefinition{}
	d.Name = []string{"i", "j"}[sym.Choice("name", 2)]
	n := sym.Choice("columns", 5)
	d.Option.Unique = n%2 == 1
	switch n {
	case 0:
		d.Fields = []document.IndexField{{Name: "p"}}
	case 1:
		d.Fields = []document.IndexField{{Name: "p", Desc: true}}
	case 2:
		d.Fields = []document.IndexField{{Name: "q", Desc: true}, {Name: "p"}}
	case 3:
		d.Fields = []document.IndexField{{Name: "p"}, {Name: "q", Desc: true}}
	default:
		d.Fields = []document.IndexField{{Name: "q", Desc: flip("desc")}}
	}
	return d
}

func (x *ixs) create(c *document.Collection, ids *auto, d document.IndexDefinition) {
	given := copyDef(d)
	iid, err := c.CreateIndex(d)
	sym.Assert(sameDef(d, given), "creating an index does not alter the caller's definition")
	for i := range d.Fields {
		d.Fields[i] = document.IndexField{Name: "overwritten", Desc: true}
	}
	for _, o := range x.l {
		if o.Name == given.Name || sameColumns(o.Fields, given.Fields) {
			sym.Assert(err != nil, "creation is refused when the name or the columns are taken")
			sym.Cover("refused")
			return
		}
	}
	sym.Assert(err == nil, "creation succeeds when name and columns are free")
	for _, o := range ids.ids {
		sym.Assert(o != iid, "index ids are never reused")
	}
	ids.ids = append(ids.ids, iid)
	x.l = append(x.l, given)
}

func (x *ixs) drop(c *document.Collection, name string) {
	exists, err := c.DropIndex(name)
	sym.Assert(err == nil, "dropping succeeds")
	i := x.byName(name)
	sym.Assert(exists == (i >= 0), "dropping reports whether the index existed")
	if i >= 0 {
		x.l = append(append([]document.IndexDefinition(nil), x.l[:i]...), x.l[i+1:]...)
		sym.Cover("dropped")
	}
}

// Arbitrary creations, drops, listings and reopens.
//
//sym:opt secs=150 tsecs=900
func C20_History() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	o, err := d.Collection("b")
	sym.Assert(err == nil, "opening succeeds")
	x, xo, ids := &ixs{}, &ixs{}, &auto{}
	xo.create(o, ids, document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
	for i := 0; i < pick(3, 4); i++ {
		switch sym.Choice("op", 4) {
		case 0, 1:
			x.create(c, ids, anyDef())
		case 2:
			x.drop(c, []string{"i", "j"}[sym.Choice("name", 2)])
		default:
			if flip("cleanly") {
				d.Close()
			}
			d = document.NewDB(db)
			c, err = d.Collection("a")
			sym.Assert(err == nil, "opening succeeds")
			sym.Cover("reopened")
		}
		x.check(c)
	}
	d = document.NewDB(db)
	c, err = d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x.check(c)
	o, err = d.Collection("b")
	sym.Assert(err == nil, "opening succeeds")
	xo.check(o)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Two indexes with arbitrary names and columns; documents and another collection are
// not affected.
func C20_Names() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	_, err = c.UpsertOne(3, mkdoc(4), nil)
	sym.Assert(err == nil, "upserting succeeds")
	x, ids := &ixs{}, &auto{}
	mk := func() document.IndexDefinition {
		d := document.IndexDefinition{Name: string(sym.Bytes("name", 1+sym.Choice("len", pick(1, 2))))}
		d.Option.Unique = flip("unique")
		n := 1 + sym.Choice("columns", 2)
		for i := 0; i < n; i++ {
			d.Fields = append(d.Fields, document.IndexField{Name: string(sym.Bytes("column", 1)), Desc: flip("desc")})
		}
		if n == 2 {
			sym.Assume(d.Fields[0].Name != d.Fields[1].Name)
		}
		return d
	}
	x.create(c, ids, mk())
	x.create(c, ids, mk())
	l := c.GetIndexes()
	for i := range l {
		l[i].Name = "overwritten"
		l[i].Fields[0].Name = "overwritten"
	}
	x.check(c)
	d = document.NewDB(db)
	c, err = d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x.check(c)
	x.drop(c, string(sym.Bytes("name", 1)))
	x.check(c)
	m := &ideal{}
	m.put(3, 4)
	m.check(c, nil)
	sym.Cover("end")
}

// Malformed requests are refused without effect.
func C20_Malformed() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	n := len(db.Dump())
	_, err = c.CreateIndex(document.IndexDefinition{Fields: []document.IndexField{{Name: "p"}}})
	sym.Assert(err == document.ErrIndexNameEmpty, "an empty index name is refused")
	_, err = c.CreateIndex(document.IndexDefinition{Name: "i"})
	sym.Assert(err == document.ErrIndexFieldsEmpty, "an index without columns is refused")
	_, err = c.DropIndex("")
	sym.Assert(err == document.ErrIndexNameEmpty, "an empty index name is refused")
	sym.Assert(len(c.GetIndexes()) == 0 && len(db.Dump()) == n, "a refused request changes nothing")
	sym.Cover("end")
}

// One failing storage call: an error is reported and nothing changes, now or after a
// reopen; the same request succeeds afterwards.
func C20_Fault() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x, ids := &ixs{}, &auto{}
	if flip("existing") {
		x.create(c, ids, document.IndexDefinition{Name: "i", Fields: []document.IndexField{{Name: "p"}}})
	}
	drop := flip("drop")
	def := document.IndexDefinition{Name: "j", Fields: []document.IndexField{{Name: "q"}, {Name: "p"}}}
	if !drop && flip("ids used up") {
		for len(ids.ids) < 50 {
			x.create(c, ids, document.IndexDefinition{Name: "u", Fields: []document.IndexField{{Name: "u"}}})
			x.drop(c, "u")
		}
	}
	db.All(1)
	if drop {
		_, err = c.DropIndex("i")
	} else {
		_, err = c.CreateIndex(copyDef(def))
	}
	if db.Off() == 0 {
		sym.Cover("unharmed")
		return
	}
	sym.Assert(err != nil, "an operation whose storage call failed reports an error")
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	x.check(c)
	if flip("reopen") {
		d = document.NewDB(db)
		c, err = d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
		x.check(c)
	}
	x.create(c, ids, def)
	x.drop(c, "i")
	x.check(c)
	sym.Cover("failed")
}

// One failing storage call while a collection with indexes is opened: the opening fails,
// or all its indexes are there.
func C20_Reopen() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x, ids := &ixs{}, &auto{}
	for i := 0; i < 1+sym.Choice("indexes", 3); i++ {
		n := string([]byte{'i' + byte(i)})
		x.create(c, ids, document.IndexDefinition{Name: n, Fields: []document.IndexField{{Name: n}}, Option: document.IndexOption{Unique: i == 1}})
	}
	if flip("cleanly") {
		d.Close()
	}
	d = document.NewDB(db)
	db.All(1)
	c, err = d.Collection("a")
	if db.Off() > 0 {
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "opening succeeds")
	}
	if err == nil {
		x.check(c)
	}
	c, err = d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x.check(c)
	x.drop(c, "i")
	x.check(c)
	sym.Assert(db.Open_ == 0, "no transaction is left open")
	sym.Cover("end")
}

// Many indexes.
//
//sym:opt secs=60 steps=30000000
func C20_Many() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x, ids := &ixs{}, &auto{}
	n := []int{11, 70}[sym.Choice("size", 2)]
	for i := 0; i < n; i++ {
		var fs []document.IndexField
		for j := 0; j <= i%7; j++ {
			fs = append(fs, document.IndexField{Name: string([]byte{'a' + byte(i/7), 'a' + byte(j)}), Desc: (i+j)%3 == 0})
		}
		x.create(c, ids, document.IndexDefinition{Name: string([]byte{'n', byte(i)}), Fields: fs, Option: document.IndexOption{Unique: i%2 == 0}})
	}
	for i := 0; i < 2; i++ {
		x.check(c)
		x.drop(c, string([]byte{'n', byte(sym.Choice("drop", 3) * (n - 1) / 2)}))
		x.check(c)
		if flip("cleanly") {
			d.Close()
		}
		d = document.NewDB(db)
		c, err = d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
	}
	x.check(c)
	sym.Cover("end")
}

// Long names of indexes and columns that begin alike, and definitions of many columns.
//
//sym:opt secs=60 steps=30000000
func C20_Long() {
	db := store.Open()
	d := document.NewDB(db)
	c, err := d.Collection("a")
	sym.Assert(err == nil, "opening succeeds")
	x, ids := &ixs{}, &auto{}
	size := []int{17, 40, 130, 300}[sym.Choice("size", 4)]
	wide := []int{2, 9, 17, 33}[sym.Choice("columns", 4)]
	name := func(i int) string { return longName("", 'n', size, 0) + string([]byte{byte('0' + i)}) }
	for i := 0; i < 4; i++ {
		var fs []document.IndexField
		for j := 0; j < wide; j++ {
			fs = append(fs, document.IndexField{Name: name(j), Desc: j == wide-1 && i&1 == 1 || j == 0 && i&2 == 2})
		}
		x.create(c, ids, document.IndexDefinition{Name: name(i), Fields: fs, Option: document.IndexOption{Unique: i%2 == 0}})
		x.check(c)
	}
	x.drop(c, name(sym.Choice("drop", 5)))
	if flip("reopen") {
		d.Close()
		d = document.NewDB(db)
		c, err = d.Collection("a")
		sym.Assert(err == nil, "opening succeeds")
	}
	x.check(c)
	sym.Cover("end")
}
