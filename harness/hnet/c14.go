package hnet

import (
	"errors"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"github.com/zhiqiangxu/qrpc"
)

// anyRequest is an arbitrary operation on an arbitrary key.
func anyRequest() request {
	q := request{op: sym.Choice("op", ops)}
	switch q.op {
	case opScan:
		q.o.Reverse = flip("reverse")
		q.o.Prefix = str("prefix", 0, 1)
		if flip("offset") {
			q.o.Offset = append(clone(q.o.Prefix), sym.Bytes("offset", 1)...)
		}
		q.n = []int{-1, 0, 1, 2, mondis.MaxEntry + 1}[sym.Choice("limit", 5)]
	case opSet:
		q.k, q.v, q.m = str("k", 0, 1), str("v", 0, 2), anyMeta()
	default:
		q.k = str("k", 0, 1)
	}
	return q
}

// C14_Op: one operation on an arbitrary store.
//
//sym:opt steps=6000000
func C14_Op() {
	r := boot()
	for n := pick(2, 3); n > 0; n-- {
		if flip("prior") {
			r.put(str("pk", 1), str("pv", 0, 1), anyMeta())
		}
	}
	q := anyRequest()
	q.over(r.c).like(q.on(r.twin), q.op)
	r.agree("after a remote " + opNames[q.op])
	r.ended(0)
}

// C14_Ops: operations in sequence over a few keys, repeated on one connection.
//
//sym:opt steps=6000000
func C14_Ops() {
	r := boot()
	keys := [][]byte{[]byte("a"), {0, 0xff}}
	for n := pick(3, 4); n > 0; n-- {
		q := request{op: sym.Choice("op", ops), n: 2}
		if q.op != opScan {
			q.k = keys[sym.Choice("key", 2)]
		}
		if q.op == opSet {
			q.v = str("v", 0, 1)
			if flip("tagged") {
				q.m = &mondis.VMetaReq{Tag: sym.Byte("tag")}
			}
		}
		q.over(r.c).like(q.on(r.twin), q.op)
	}
	r.agree("after the operations")
	r.ended(0)
}

// C14_Fault: a failing store call is reported.
//
//sym:opt steps=6000000
func C14_Fault() {
	r := boot()
	r.put([]byte("a"), sym.Bytes("pv", 1), nil)
	r.put([]byte("ab"), sym.Bytes("pv", 1), nil)
	q := anyFixed()
	if flip("too big") {
		r.db.F.Err = kv.ErrTxnTooBig
		sym.Cover("too big")
	}
	r.db.All(1)
	res := q.over(r.c)
	if r.db.Off() > 0 {
		sym.Assert(res.err != nil, "a store failure is reported as an error")
		sym.Assert(res.err != kv.ErrKeyNotFound, "a store failure is not reported as not found")
		sym.Assert(!res.ok && res.v == nil && len(res.es) == 0, "no result comes with an error")
		if r.db.F.Err != nil && (q.op == opSet || q.op == opDelete) {
			sym.Assert(res.err == kv.ErrTxnTooBig, "a write that is too big is reported as too big")
		}
		sym.Cover("failed")
	} else {
		res.like(q.on(r.twin), q.op)
	}
	r.agree("after a failure")
	r.ended(0)
}

// anyFixed is an operation on one of few keys.
func anyFixed() request {
	q := request{op: sym.Choice("op", ops), n: 5}
	q.k = [][]byte{[]byte("a"), []byte("ab"), []byte("b")}[sym.Choice("key", 3)]
	q.v = sym.Bytes("v", 1)
	return q
}

var cmds = [ops]qrpc.Cmd{server.SetCmd, server.GetCmd, server.ExistsCmd, server.DeleteCmd, server.ScanCmd}

func entry(m *pb.VMetaResp) (o mondis.VMetaResp) {
	sym.Assert(m != nil, "a value comes with metadata")
	return mondis.VMetaResp{ExpiresAt: m.ExpiresAt, Tag: byte(m.Tag)}
}

// answer is the result code of an answer and the result in it.
func answer(op int, payload []byte) (code int32, r result) {
	var err error
	switch op {
	case opSet:
		var m pb.SetResponse
		err, code = m.Unmarshal(payload), m.Code
	case opGet:
		var m pb.GetResponse
		err, code = m.Unmarshal(payload), m.Code
		if code == 0 {
			r.v, r.m = m.Value, entry(m.Meta)
		}
	case opExists:
		var m pb.ExistsResponse
		err, code = m.Unmarshal(payload), m.Code
		r.ok = m.Exists
	case opDelete:
		var m pb.DeleteResponse
		err, code = m.Unmarshal(payload), m.Code
	default:
		var m pb.ScanResponse
		err, code = m.Unmarshal(payload), m.Code
		for _, e := range m.Entries {
			r.es = append(r.es, mondis.Entry{Key: e.Key, Value: e.Value, Meta: entry(e.Meta)})
		}
	}
	sym.Assert(err == nil, "an answer decodes")
	switch code {
	case server.CodeOK:
	case server.CodeKeyNotFound:
		r.err = kv.ErrKeyNotFound
	case server.CodeTxnTooBig:
		r.err = kv.ErrTxnTooBig
	default:
		r.err = errCode
	}
	return
}

var errCode = errors.New("error code")

// decode is what a payload asks for.
func decode(op int, payload []byte) (q request, err error) {
	q.op = op
	switch op {
	case opSet:
		var m pb.SetRequest
		err = m.Unmarshal(payload)
		q.k, q.v = m.Key, m.Value
		if m.Meta != nil {
			q.m = &mondis.VMetaReq{TTL: time.Duration(m.Meta.TTL), Tag: byte(m.Meta.Tag)}
		}
	case opGet:
		var m pb.GetRequest
		err = m.Unmarshal(payload)
		q.k = m.Key
	case opExists:
		var m pb.ExistsRequest
		err = m.Unmarshal(payload)
		q.k = m.Key
	case opDelete:
		var m pb.DeleteRequest
		err = m.Unmarshal(payload)
		q.k = m.Key
	case opScan:
		var m pb.ScanRequest
		err = m.Unmarshal(payload)
		if o := m.ProviderScanOption; o != nil {
			q.o = mondis.ProviderScanOption{Reverse: o.Reverse, Prefix: o.Prefix, Offset: o.Offset}
		}
		q.n = int(m.Limit)
	}
	return
}

// C14_Raw: arbitrary bytes sent as a request.
//
//sym:opt steps=6000000
func C14_Raw() {
	r := boot()
	r.put([]byte{7}, []byte{8}, nil)
	op := sym.Choice("op", ops)
	payload := sym.Bytes("payload", sym.Choice("length", pick(5, 6)))
	con := r.raw()
	_, resp, err := con.Request(cmds[op], qrpc.NBFlag, clone(payload))
	sym.Assert(err == nil, "a request is sent")
	f, err := resp.GetFrame()
	sym.Assert(err == nil && f != nil, "a request is answered")
	got, res := answer(op, f.Payload)
	q, err := decode(op, payload)
	if err != nil {
		sym.Assert(got == server.CodeInvalidRequest, "a request that does not decode is refused as invalid")
		sym.Cover("refused")
	} else {
		res.like(q.on(r.twin), op)
		sym.Cover("accepted")
	}
	r.agree("after arbitrary bytes")
	r.ended(0)
}

// C14_Lost: the connection breaks around an operation.
//
//sym:opt steps=6000000
func C14_Lost() {
	r := boot()
	r.put([]byte("a"), []byte("0"), nil)
	q := anyFixed()
	answered := flip("executed")
	if answered {
		r.cut.arm(0, 1)
	} else {
		r.cut.arm(1, 0)
	}
	res := q.over(r.c)
	sym.Assert(res.err != nil && res.err != kv.ErrKeyNotFound, "an operation whose answer is lost is an error")
	sym.Assert(!res.ok && res.v == nil && len(res.es) == 0, "no result comes with an error")
	r.ended(0)
	if answered {
		q.on(r.twin)
	}
	r.agree("after a lost connection")
	q = anyFixed()
	q.op = opSet
	for i := 0; i < 50; i++ {
		if res = q.over(r.c); res.err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	res.like(q.on(r.twin), q.op)
	r.agree("after a reconnection")
}
