package hnet

import (
	"errors"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"github.com/zhiqiangxu/qrpc"
)

var errMine = errors.New("callback failed")

// step is an arbitrary operation on one of few keys, with and without each option.
func step() request {
	q := request{op: sym.Choice("op", ops)}
	switch q.op {
	case opScan:
		switch sym.Choice("scan", 4) {
		case 0:
			q.n = 1
		case 1:
			q.n = 5
		case 2:
			q.n, q.o.Reverse, q.o.Prefix = 5, true, []byte("b")
		case 3:
			q.n, q.o.Prefix, q.o.Offset = 5, []byte("a"), []byte("ab")
		}
	default:
		q.k = [][]byte{[]byte("a"), []byte("ab"), {}}[sym.Choice("key", 3)]
	}
	if q.op == opSet {
		if flip("plain") {
			q.v = str("v", 0, 1)
		} else {
			q.v, q.m = sym.Bytes("v", 2), &mondis.VMetaReq{Tag: sym.Byte("tag"), TTL: time.Duration(150*365*24) * time.Hour}
		}
	}
	return q
}

// C15_Txn: a transaction of arbitrary operations, ended in every way.
//
//sym:opt steps=8000000
func C15_Txn() {
	r := boot()
	r.put([]byte("a"), sym.Bytes("pv", 1), &mondis.VMetaReq{Tag: 5})
	if flip("second") {
		r.put([]byte("b"), sym.Bytes("pv", 1), nil)
	}
	before := all(r.db)
	update := !flip("view")
	t := r.twin.NewTransaction(update)
	fails := flip("callback fails")
	body := func(x mondis.Txn) error {
		for n := pick(3, 4); n > 0; n-- {
			q := step()
			q.over(x).like(q.on(t), q.op)
		}
		now := all(r.db)
		sym.Assert(len(now) == len(before), "nothing shows outside before the commit")
		for i := range now {
			sameEnt(now[i], before[i], "outside before the commit")
		}
		if fails {
			return errMine
		}
		return nil
	}
	if update {
		err := r.c.Update(body)
		if fails {
			sym.Assert(err == errMine, "an update returns its callback's error")
			t.Discard()
			sym.Cover("callback failed")
		} else {
			sameErr(err, t.Commit(), "remote commit")
			sym.Cover("committed")
		}
	} else {
		err := r.c.View(body)
		sym.Assert(fails == (err == errMine) && fails == (err != nil), "a view returns its callback's result")
		t.Discard()
		sym.Cover("viewed")
	}
	t.Discard()
	r.agree("after the transaction")
	r.ended(0)
}

// C15_Long: the same few operations in longer sequences.
//
//sym:opt steps=8000000
func C15_Long() {
	r := boot()
	r.put([]byte("a"), []byte("1"), &mondis.VMetaReq{Tag: 5})
	t := r.twin.NewTransaction(true)
	err := r.c.Update(func(x mondis.Txn) error {
		for n := pick(5, 6); n > 0; n-- {
			var q request
			switch sym.Choice("step", 5) {
			case 0:
				q = request{op: opSet, k: []byte("ab"), v: sym.Bytes("v", 1)}
			case 1:
				q = request{op: opGet, k: []byte("ab")}
			case 2:
				q = request{op: opDelete, k: []byte("a")}
			case 3:
				q = request{op: opExists, k: []byte("a")}
			case 4:
				q = request{op: opScan, n: 2}
			}
			q.over(x).like(q.on(t), q.op)
		}
		return nil
	})
	sameErr(err, t.Commit(), "remote commit")
	t.Discard()
	r.agree("after the transaction")
	r.ended(0)
}

// C15_Conflict: another writer, local or remote, while a transaction is open.
//
//sym:opt steps=8000000
func C15_Conflict() {
	r := boot()
	keys := [][]byte{[]byte("a"), []byte("b")}
	r.put(keys[0], []byte("0"), nil)
	small := func() request {
		return request{op: []int{opGet, opSet}[sym.Choice("op", 2)], k: keys[sym.Choice("key", 2)], v: sym.Bytes("v", 1)}
	}
	t := r.twin.NewTransaction(true)
	err := r.c.Update(func(x mondis.Txn) error {
		q := small()
		q.over(x).like(q.on(t), q.op)
		switch sym.Choice("other", 3) {
		case 0: // another remote transaction
			t2 := r.twin.NewTransaction(true)
			err := r.c.Update(func(y mondis.Txn) error {
				for i := 0; i < 2; i++ {
					q := small()
					q.over(y).like(q.on(t2), q.op)
				}
				return nil
			})
			sameErr(err, t2.Commit(), "inner remote commit")
			t2.Discard()
			sym.Cover("nested")
		case 1: // a single remote operation
			q := small()
			q.over(r.c).like(q.on(r.twin), q.op)
		case 2: // a local one
			q := small()
			q.on(r.db).like(q.on(r.twin), q.op)
		}
		q = small()
		q.over(x).like(q.on(t), q.op)
		return nil
	})
	want := t.Commit()
	sameErr(err, want, "remote commit")
	if want != nil {
		sym.Cover("conflict")
	}
	t.Discard()
	r.agree("after the transactions")
	r.ended(0)
}

// C15_Fault: a store call fails in a transaction.
//
//sym:opt steps=8000000
func C15_Fault() {
	r := boot()
	r.put([]byte("a"), []byte("0"), nil)
	r.put([]byte("ab"), []byte("1"), nil)
	if flip("too big") {
		r.db.F.Err = kv.ErrTxnTooBig
		sym.Cover("too big")
	}
	t := r.twin.NewTransaction(true)
	goOn := flip("the caller goes on")
	committing := false
	r.db.All(1)
	err := r.c.Update(func(x mondis.Txn) error {
		for n := 2; n > 0; n-- {
			q := anyFixed()
			hits := r.db.F.Hit
			res := q.over(x)
			if r.db.F.Hit > hits {
				sym.Assert(res.err != nil, "a store failure is reported as an error")
				sym.Assert(res.err != kv.ErrKeyNotFound, "a store failure is not reported as not found")
				if r.db.F.Err != nil && (q.op == opSet || q.op == opDelete) {
					sym.Assert(res.err == kv.ErrTxnTooBig, "a write that is too big is reported as too big")
				}
				sym.Cover("failed")
				if !goOn {
					return res.err
				}
				continue
			}
			res.like(q.on(t), q.op)
		}
		committing = true
		return nil
	})
	inOps := r.db.F.Hit
	r.db.Off()
	failedCommit := false
	if !committing {
		sym.Assert(err != nil, "an update whose callback failed returns the error")
	} else if err != nil {
		failedCommit = true
		sym.Assert(inOps == 1, "a commit fails only when the store fails")
		sym.Cover("commit failed")
	}
	if committing && !failedCommit {
		sym.Assert(t.Commit() == nil, "a local commit succeeds")
	}
	t.Discard()
	r.agree("after a failure")
	r.ended(0)
}

// C15_Cut: the connection breaks at an arbitrary point of a transaction.
//
//sym:opt steps=8000000
func C15_Cut() {
	r := boot()
	r.put([]byte("a"), []byte("0"), nil)
	t := r.twin.NewTransaction(true)
	n := pick(2, 3)
	at := 1 + sym.Choice("at", n+1) // the last is the commit
	executed := flip("executed")
	if executed {
		r.cut.arm(0, at)
	} else {
		r.cut.arm(at, 0)
	}
	goOn := flip("the caller goes on")
	failed := 0
	err := r.c.Update(func(x mondis.Txn) error {
		for i := 1; i <= n; i++ {
			q := anyFixed()
			res := q.over(x)
			if i < at {
				res.like(q.on(t), q.op)
				continue
			}
			if i == at {
				sym.Assert(res.err != nil && res.err != kv.ErrKeyNotFound, "an operation whose answer is lost is an error")
				sym.Assert(!res.ok && res.v == nil && len(res.es) == 0, "no result comes with an error")
			}
			if res.err != nil {
				failed++
				if !goOn {
					return res.err
				}
			}
		}
		return nil
	})
	sym.Cover("cut")
	if at == 1 && !executed && goOn {
		// nothing had begun: the rest may be a transaction of its own on a new connection
		sym.Stop()
	}
	sym.Assert(err != nil, "an update whose connection was lost returns an error")
	r.ended(0)
	if at == n+1 && executed {
		sym.Assert(t.Commit() == nil, "a local commit succeeds")
	}
	t.Discard()
	r.agree("after a lost connection")
	q := request{op: opSet, k: []byte("z"), v: []byte("z")}
	var res result
	for i := 0; i < 50; i++ {
		if res = q.over(r.c); res.err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	res.like(q.on(r.twin), q.op)
	r.agree("after a reconnection")
}

// C15_Raw: frames sent by hand: a transaction begun by any operation, writing or not,
// continued with arbitrary bytes, and ended.
//
//sym:opt steps=8000000
func C15_Raw() {
	r := boot()
	r.put([]byte{7}, []byte{8}, nil)
	con := r.raw()
	op := sym.Choice("op", ops)
	payload := sym.Bytes("payload", sym.Choice("length", pick(4, 5)))
	cmd := server.GetCmd
	update := flip("update")
	if update {
		cmd = qrpc.CmdWithOpaque(cmd, 1)
	}
	t := r.twin.NewTransaction(update)
	sw, resp, err := con.StreamRequest(cmd, 0, []byte{0x0a, 1, 7})
	sym.Assert(err == nil, "a request is sent")
	f, err := resp.GetFrame()
	sym.Assert(err == nil && f != nil, "a request is answered")
	_, res := answer(opGet, f.Payload)
	res.like(request{op: opGet, k: []byte{7}}.on(t), opGet)
	sw.StartWrite(cmds[op])
	sw.WriteBytes(payload)
	sym.Assert(sw.EndWrite(false) == nil, "a frame is sent")
	g := <-f.FrameCh()
	sym.Assert(g != nil, "a frame of a transaction is answered")
	got, res := answer(op, g.Payload)
	q, err := decode(op, payload)
	if err != nil {
		sym.Assert(got == server.CodeInvalidRequest, "a request that does not decode is refused as invalid")
		g = <-f.FrameCh()
		sym.Assert(g == nil, "an invalid request ends the transaction")
		t.Discard()
		sym.Cover("refused")
	} else {
		want := q.on(t)
		res.like(want, op)
		if !update && (op == opSet || op == opDelete) {
			sym.Assert(res.err != nil, "a read-only transaction refuses writes")
			sym.Cover("read-only")
		}
		if flip("commit") {
			sw.StartWrite(server.CommitCmd)
			sym.Assert(sw.EndWrite(true) == nil, "a frame is sent")
			g = <-f.FrameCh()
			sym.Assert(g != nil, "a commit is answered")
			_, res = answer(opSet, g.Payload)
			sameErr(res.err, t.Commit(), "remote commit")
			sym.Cover("committed")
		} else {
			sw.StartWrite(server.DiscardCmd)
			sym.Assert(sw.EndWrite(true) == nil, "a frame is sent")
			g = <-f.FrameCh()
			sym.Assert(g != nil, "a discard is answered")
			sym.Cover("discarded")
		}
	}
	t.Discard()
	r.agree("after arbitrary bytes")
	r.ended(0)
}

// C15_Batch: a client that writes frames of several requests together.
//
//sym:opt steps=8000000
func C15_Batch() {
	r := bootWith(100)
	r.put([]byte("a"), []byte("0"), nil)
	stop := crowd(r.c)
	commits, discards := flip("the inner commits"), flip("the outer commits")
	op1, op2 := sym.Choice("op", ops), sym.Choice("op", ops)
	v := sym.Bytes("v", 1)
	for i := 0; i < tries; i++ {
		t := r.twin.NewTransaction(true)
		err := r.c.Update(func(x mondis.Txn) error {
			q := request{op: op1, k: []byte("a"), v: v, n: 3}
			q.over(x).like(q.on(t), q.op)
			t2 := r.twin.NewTransaction(true)
			err := r.c.Update(func(y mondis.Txn) error {
				q := request{op: op2, k: []byte("b"), v: v, n: 3}
				q.over(y).like(q.on(t2), q.op)
				if !commits {
					return errMine
				}
				return nil
			})
			if commits {
				sameErr(err, t2.Commit(), "inner remote commit")
			} else {
				sym.Assert(err == errMine, "an update returns its callback's error")
			}
			t2.Discard()
			q.over(x).like(q.on(t), q.op)
			if discards {
				return errMine
			}
			return nil
		})
		if discards {
			sym.Assert(err == errMine, "an update returns its callback's error")
		} else {
			sameErr(err, t.Commit(), "remote commit")
		}
		t.Discard()
	}
	stop()
	r.agree("after the transactions")
	r.ended(0)
}
