package hnet

import (
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"github.com/zhiqiangxu/qrpc"
)

// opened keeps a server from opening and closing a store that is open.
type opened struct{ *store.DB }

func (opened) Open(mondis.KVOption) error { return nil }
func (opened) Close() error               { return nil }

// remote is a server over a store, a client of it, and a twin of the store on which
// the same operations are done locally.
type remote struct {
	addr string
	db   *store.DB
	twin *store.DB
	c    mondis.Client
	cut  *cutter
	s    server.KVServer
}

func boot() *remote { return bootWith(0) }

// bootWith lets the client write up to batch frames together.
func bootWith(batch int) *remote {
	r := &remote{addr: freeAddr(), db: store.Open(), twin: store.Open()}
	r.s = server.New(r.addr, opened{r.db}, server.Option{}, mondis.KVOption{})
	go r.s.Start()
	up(r.addr)
	r.cut = newCutter(r.addr)
	cfg := r.cut.config()
	cfg.WriteFrameChSize = batch
	r.c = client.New(r.addr, client.Option{QrpcConfig: cfg})
	return r
}

func (r *remote) raw() *qrpc.Connection {
	return qrpc.NewConnectionWithReconnect([]string{r.addr}, qrpc.ConnectionConfig{}, nil)
}

// both does something on the server's store and on its twin.
func (r *remote) both(f func(db mondis.KVDB)) {
	f(r.db)
	f(r.twin)
}

// put stores a pair in both.
func (r *remote) put(k, v []byte, m *mondis.VMetaReq) {
	r.both(func(db mondis.KVDB) {
		sym.Assert(db.Set(clone(k), clone(v), m) == nil, "a local set succeeds")
	})
}

// agree compares the whole of both stores.
func (r *remote) agree(what string) {
	a, b := all(r.db), all(r.twin)
	sym.Assert(len(a) == len(b), what+": the same keys are stored as locally")
	for i := range a {
		sameEnt(a[i], b[i], what)
	}
}

func all(db *store.DB) (out []mondis.Entry) {
	err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
		out = append(out, mondis.Entry{Key: clone(k), Value: clone(v), Meta: m})
		return true
	})
	sym.Assert(err == nil, "a local scan succeeds")
	return
}

func sameEnt(a, b mondis.Entry, what string) {
	sym.Assert(eq(a.Key, b.Key), what+": the key is that of the local operation")
	sym.Assert(eq(a.Value, b.Value), what+": the value is that of the local operation")
	sameMeta(a.Meta, b.Meta, what)
}

func sameMeta(a, b mondis.VMetaResp, what string) {
	sym.Assert(a.Tag == b.Tag, what+": the tag is that of the local operation")
	sym.Assert(sym.Or(a.ExpiresAt == b.ExpiresAt, sym.And(a.ExpiresAt != 0, b.ExpiresAt != 0, a.ExpiresAt-b.ExpiresAt+2 <= 4)),
		what+": the expiry is that of the local operation")
}

// sameErr compares outcomes: success, not found, too big, other failure.
func sameErr(got, want error, what string) {
	sym.Assert((got == nil) == (want == nil), what+": it succeeds exactly when the local operation does")
	sym.Assert((got == kv.ErrKeyNotFound) == (want == kv.ErrKeyNotFound), what+": not found is reported exactly when it is locally")
	sym.Assert((got == kv.ErrTxnTooBig) == (want == kv.ErrTxnTooBig), what+": too big is reported exactly when it is locally")
}

// local is what a store and a transaction on it have in common.
type local interface {
	Set(k, v []byte, meta *mondis.VMetaReq) error
	Exists(k []byte) (bool, error)
	Get(k []byte) ([]byte, mondis.VMetaResp, error)
	Delete(k []byte) error
	Scan(mondis.ProviderScanOption, func(key, value []byte, meta mondis.VMetaResp) bool) error
}

// first lists the first n entries of a local scan.
func first(l local, o mondis.ProviderScanOption, n int) (out []mondis.Entry, err error) {
	if n > mondis.MaxEntry {
		n = mondis.MaxEntry
	}
	if n <= 0 {
		return
	}
	err = l.Scan(o, func(k, v []byte, m mondis.VMetaResp) bool {
		out = append(out, mondis.Entry{Key: clone(k), Value: clone(v), Meta: m})
		return len(out) < n
	})
	return
}

func anyMeta() *mondis.VMetaReq {
	switch sym.Choice("meta", 4) {
	case 0:
		return nil
	case 1:
		return &mondis.VMetaReq{Tag: sym.Byte("tag")}
	case 2:
		return &mondis.VMetaReq{TTL: time.Duration(150*365*24) * time.Hour, Tag: sym.Byte("tag")}
	}
	return &mondis.VMetaReq{TTL: -time.Hour}
}

// request is one operation.
type request struct {
	op   int
	k, v []byte
	m    *mondis.VMetaReq
	o    mondis.ProviderScanOption
	n    int
}

const (
	opSet = iota
	opGet
	opExists
	opDelete
	opScan
	ops
)

// result is what an operation returned.
type result struct {
	ok  bool
	v   []byte
	m   mondis.VMetaResp
	es  []mondis.Entry
	err error
}

func (q request) on(l local) (r result) {
	switch q.op {
	case opSet:
		r.err = l.Set(clone(q.k), clone(q.v), q.m)
	case opGet:
		r.v, r.m, r.err = l.Get(clone(q.k))
	case opExists:
		r.ok, r.err = l.Exists(clone(q.k))
	case opDelete:
		r.err = l.Delete(clone(q.k))
	case opScan:
		r.es, r.err = first(l, mondis.ProviderScanOption{Reverse: q.o.Reverse, Prefix: clone(q.o.Prefix), Offset: clone(q.o.Offset)}, q.n)
	}
	return
}

func (q request) over(c mondis.KVOP) (r result) {
	switch q.op {
	case opSet:
		r.err = c.Set(clone(q.k), clone(q.v), q.m)
	case opGet:
		r.v, r.m, r.err = c.Get(clone(q.k))
	case opExists:
		r.ok, r.err = c.Exists(clone(q.k))
	case opDelete:
		r.err = c.Delete(clone(q.k))
	case opScan:
		r.es, r.err = c.Scan(mondis.ScanOption{ProviderScanOption: q.o, Limit: q.n})
	}
	return
}

var opNames = [ops]string{"set", "get", "exists", "delete", "scan"}

// like compares a remote result with the local one.
func (a result) like(b result, op int) {
	what := "remote " + opNames[op]
	sameErr(a.err, b.err, what)
	if a.err != nil {
		return
	}
	sym.Assert(a.ok == b.ok, what+": existence is that of the local operation")
	sym.Assert(eq(a.v, b.v), what+": the value is that of the local operation")
	sameMeta(a.m, b.m, what)
	sym.Assert(len(a.es) == len(b.es), what+": as many entries as locally")
	for i := range a.es {
		sameEnt(a.es[i], b.es[i], what)
	}
	sym.Cover(what)
}

// ended asserts that no transaction stays open on the server's store.
func (r *remote) ended(n int) {
	hush(func() bool { return r.db.Open_ <= n })
	sym.Assert(r.db.Open_ == n, "no transaction stays open once the client is done with it")
}
