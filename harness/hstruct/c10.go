package hstruct

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// judge asserts that a failure injected into an operation reached its caller.
func judge(db *store.DB, err error) {
	if db.Off() > 0 {
		sym.Assert(err != nil, "an operation whose storage call failed reports an error")
		sym.Assert(err != kv.ErrKeyNotFound, "a storage failure is not reported as absence")
		sym.Cover("failed")
		return
	}
	sym.Cover("unharmed")
}

func faulty(n int) *session {
	s := begin([]byte("p"), false)
	_ = n
	return s
}

// every list operation, from lists of every size up to two, with any one storage call
// failing.
func C10_List() {
	s := faulty(1)
	t := s.t()
	key := []byte("k")
	for i := sym.Choice("n", 3); i > 0; i-- {
		t.RPush(key, sym.Bytes("e", 1))
	}
	s.db.All(1)
	var err error
	switch sym.Choice("op", 9) {
	case 0:
		err = t.LPush(key, []byte("x"))
	case 1:
		err = t.RPush(key, []byte("x"), []byte("y"))
	case 2:
		_, err = t.LPop(key)
	case 3:
		_, err = t.RPop(key)
	case 4:
		_, err = t.LLen(key)
	case 5:
		_, err = t.LGetAll(key)
	case 6:
		_, err = t.LIndex(key, sym.Int64("i"))
	case 7:
		err = t.LSet(key, sym.Int64("i"), []byte("z"))
	default:
		err = t.LClear(key)
	}
	judge(s.db, err)
}

// every hash operation, from hashes of every size up to two.
func C10_Hash() {
	s := faulty(1)
	t := s.t()
	key := []byte("k")
	n := sym.Choice("n", 3)
	if n > 0 {
		t.HSet(key, []byte("a"), []byte("7"))
	}
	if n > 1 {
		t.HSet(key, []byte("b"), []byte("8"))
	}
	f := sym.Bytes("f", 1)
	s.db.All(1)
	var err error
	switch sym.Choice("op", 14) {
	case 0:
		err = t.HSet(key, f, sym.Bytes("v", 1))
	case 1:
		_, err = t.HInc(key, f, sym.Int64("step"))
	case 2:
		_, err = t.HGet(key, f)
		if s.db.F.Hit == 0 {
			err = nil
		}
	case 3:
		_, err = t.HGetInt64(key, f)
		if s.db.F.Hit == 0 {
			err = nil
		}
	case 4:
		err = t.HSetInt64(key, f, 3)
	case 5:
		_, err = t.HLen(key)
	case 6:
		err = t.HDel(key, f)
	case 7:
		err = t.HDel(key, f, []byte("b"))
	case 8:
		_, err = t.HKeys(key)
	case 9:
		_, err = t.HGetAll(key)
	case 10:
		_, err = t.HGetN(key, 5)
	case 11:
		_, err = t.HGetNDesc(key, 5)
	default:
		err = t.HClear(key)
	}
	judge(s.db, err)
}

// every string and counter operation, on an absent and on a present key.
func C10_String() {
	s := faulty(1)
	t := s.t()
	key := []byte("k")
	if sym.FixBool(sym.Bool("present")) {
		t.Set(key, []byte("5"))
	}
	s.db.All(1)
	var err error
	switch sym.Choice("op", 9) {
	case 0:
		err = t.Set(key, []byte("6"))
	case 1:
		_, err = t.Get(key)
		if s.db.F.Hit == 0 {
			err = nil
		}
	case 2:
		err = t.Clear(key)
	case 3:
		_, err = t.GetInt64(key)
		if s.db.F.Hit == 0 {
			err = nil
		}
	case 4:
		err = t.SetInt64(key, 1)
	case 5:
		_, err = t.Inc(key, 1)
	case 6:
		_, err = kv.IncInt64(s.txn, key, 1)
	case 7:
		_, err = kv.GetInt64(s.txn, key)
		if s.db.F.Hit == 0 {
			err = nil
		}
	default:
		err = kv.SetInt64(s.txn, key, 1)
	}
	judge(s.db, err)
}
