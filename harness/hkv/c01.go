package hkv

import (
	"bytes"

	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// order asserts that ea and eb order exactly like a and b (lt: a<b, eq: a==b).
func order(lt, same bool, ea, eb []byte, desc bool) {
	c := bytes.Compare(ea, eb)
	if desc {
		c = -c
	}
	sym.Assert(sym.Iff(lt, c < 0), "smaller values have smaller encodings")
	sym.Assert(sym.Iff(same, c == 0), "equal encodings exactly for equal values")
}

// int64, both directions, every pair.
func C01_Int64() {
	a, b := sym.Int64("a"), sym.Int64("b")
	desc := sym.FixBool(sym.Bool("desc"))
	if desc {
		order(a < b, a == b, memcomparable.EncodeInt64Desc(nil, a), memcomparable.EncodeInt64Desc(nil, b), true)
	} else {
		order(a < b, a == b, memcomparable.EncodeInt64(nil, a), memcomparable.EncodeInt64(nil, b), false)
		ua, ub := memcomparable.EncodeInt64ToUint64(a), memcomparable.EncodeInt64ToUint64(b)
		sym.Assert(sym.Iff(a < b, ua < ub), "unsigned images of signed numbers order like them")
		sym.Assert(memcomparable.DecodeUint64ToInt64(ua) == a, "unsigned image maps back")
	}
	sym.Cover("end")
}

// uint64 and uint8, both directions, every pair.
func C01_Uint() {
	desc := sym.FixBool(sym.Bool("desc"))
	if sym.FixBool(sym.Bool("wide")) {
		a, b := sym.Uint64("a"), sym.Uint64("b")
		if desc {
			order(a < b, a == b, memcomparable.EncodeUint64Desc(nil, a), memcomparable.EncodeUint64Desc(nil, b), true)
		} else {
			order(a < b, a == b, memcomparable.EncodeUint64(nil, a), memcomparable.EncodeUint64(nil, b), false)
		}
		sym.Cover("uint64")
		return
	}
	a, b := sym.Byte("a"), sym.Byte("b")
	if desc {
		order(a < b, a == b, memcomparable.EncodeUint8Desc(nil, a), memcomparable.EncodeUint8Desc(nil, b), true)
	} else {
		order(a < b, a == b, memcomparable.EncodeUint8(nil, a), memcomparable.EncodeUint8(nil, b), false)
	}
	sym.Cover("uint8")
}

// every pair of non-NaN floats (infinities and both zeros included).
func C01_Float64() {
	a, b := sym.Float64("a"), sym.Float64("b")
	sym.Assume(a == a)
	sym.Assume(b == b)
	if sym.FixBool(sym.Bool("desc")) {
		order(a < b, a == b, memcomparable.EncodeFloat64Desc(nil, a), memcomparable.EncodeFloat64Desc(nil, b), true)
	} else {
		order(a < b, a == b, memcomparable.EncodeFloat64(nil, a), memcomparable.EncodeFloat64(nil, b), false)
	}
	sym.Cover("end")
}

// every pair of byte strings up to two groups and a byte (thorough: four groups).
//
//sym:opt secs=120 tsecs=600
func C01_Bytes() {
	n := pick(17, 33)
	a, b := str("a", n), str("b", n)
	if sym.FixBool(sym.Bool("desc")) {
		order(bytes.Compare(a, b) < 0, bytes.Equal(a, b), memcomparable.EncodeBytesDesc(nil, a), memcomparable.EncodeBytesDesc(nil, b), true)
	} else {
		order(bytes.Compare(a, b) < 0, bytes.Equal(a, b), memcomparable.EncodeBytes(nil, a), memcomparable.EncodeBytes(nil, b), false)
	}
	sym.Cover("end")
}

type comp struct {
	s []byte
	n int64
}

// two-component keys: byte string then integer, integer then byte string,
// two byte strings; every direction per component.
//
//sym:opt secs=120 tsecs=600
func C01_Composite() {
	n := pick(9, 17)
	kind := sym.Choice("kind", 3)
	d1, d2 := sym.FixBool(sym.Bool("desc1")), sym.FixBool(sym.Bool("desc2"))
	enc := func(b, s []byte, d bool) []byte {
		if d {
			return memcomparable.EncodeBytesDesc(b, s)
		}
		return memcomparable.EncodeBytes(b, s)
	}
	enci := func(b []byte, v int64, d bool) []byte {
		if d {
			return memcomparable.EncodeInt64Desc(b, v)
		}
		return memcomparable.EncodeInt64(b, v)
	}
	var ea, eb []byte
	var c1, c2 int
	cmpi := func(a, b int64) int {
		if a < b {
			return -1
		}
		if a > b {
			return 1
		}
		return 0
	}
	switch kind {
	case 0:
		a, b := str("a", n), str("b", n)
		x, y := sym.Int64("x"), sym.Int64("y")
		ea, eb = enci(enc(nil, a, d1), x, d2), enci(enc(nil, b, d1), y, d2)
		c1, c2 = bytes.Compare(a, b), cmpi(x, y)
	case 1:
		a, b := str("a", n), str("b", n)
		x, y := sym.Int64("x"), sym.Int64("y")
		ea, eb = enc(enci(nil, x, d1), a, d2), enc(enci(nil, y, d1), b, d2)
		c1, c2 = cmpi(x, y), bytes.Compare(a, b)
	default:
		n = pick(2, 9)
		a, b := str("a", n), str("b", n)
		x, y := str("x", n), str("y", n)
		ea, eb = enc(enc(nil, a, d1), x, d2), enc(enc(nil, b, d1), y, d2)
		c1, c2 = bytes.Compare(a, b), bytes.Compare(x, y)
	}
	if d1 {
		c1 = -c1
	}
	if d2 {
		c2 = -c2
	}
	lt := sym.Or(c1 < 0, sym.And(c1 == 0, c2 < 0))
	order(lt, sym.And(c1 == 0, c2 == 0), ea, eb, false)
	sym.Cover("end")
}
