package hkv

import (
	"math"

	"github.com/zhiqiangxu/mondis/kv/compact"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// appended checks that out is pre followed by something, and that b kept pre.
func appended(out, b, pre []byte) []byte {
	sym.Assert(len(out) >= len(pre), "encoding appends")
	sym.Assert(eq(out[:len(pre)], pre), "encoding keeps what the buffer held")
	sym.Assert(eq(b, pre), "encoding leaves the caller's buffer alone")
	return out[len(pre):]
}

// withRest returns enc followed by arbitrary bytes, and those bytes.
func withRest(enc []byte) (all, rest []byte) {
	rest = sym.Bytes("rest", sym.Choice("rest.len", 3))
	all = append(clone(enc), rest...)
	return
}

// byte strings, ascending and descending.
//
//sym:opt secs=120 tsecs=600
func C02_Bytes() {
	data := str("data", pick(17, 33))
	keep := clone(data)
	b, pre := buf("pre", 2, 40)
	desc := sym.FixBool(sym.Bool("desc"))
	var enc []byte
	if desc {
		enc = memcomparable.EncodeBytesDesc(b, data)
	} else {
		enc = memcomparable.EncodeBytes(b, data)
	}
	enc = appended(enc, b, pre)
	sym.Assert(eq(data, keep), "encoding leaves its input alone")
	sym.Assert(len(enc) == memcomparable.EncodedBytesLength(len(data)), "announced length is the actual length")
	all, rest := withRest(enc)
	allKeep := clone(all)
	var dst []byte
	switch sym.Choice("dst", 3) {
	case 1:
		dst = make([]byte, 1, 4)
	case 2:
		dst = make([]byte, 0, 64)
	}
	var left, got []byte
	var err error
	if desc {
		left, got, err = memcomparable.DecodeBytesDesc(all, dst)
	} else {
		left, got, err = memcomparable.DecodeBytes(all, dst)
	}
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(eq(got, keep), "decoding returns the encoded bytes")
	sym.Assert(eq(left, rest), "decoding returns exactly what follows")
	sym.Assert(eq(all, allKeep), "decoding leaves its input alone")
	sym.Cover("end")
}

// fixed-width integers and floats, ascending and descending.
func C02_Fixed() {
	b, pre := buf("pre", 2, 40)
	desc := sym.FixBool(sym.Bool("desc"))
	var left, all, allKeep, rest []byte
	var err error
	prep := func(enc []byte) {
		all, rest = withRest(appended(enc, b, pre))
		allKeep = clone(all)
	}
	switch sym.Choice("kind", 4) {
	case 0:
		v := sym.Int64("v")
		var g int64
		if desc {
			prep(memcomparable.EncodeInt64Desc(b, v))
			left, g, err = memcomparable.DecodeInt64Desc(all)
		} else {
			prep(memcomparable.EncodeInt64(b, v))
			left, g, err = memcomparable.DecodeInt64(all)
		}
		sym.Assert(g == v, "int64 decodes to itself")
	case 1:
		v := sym.Uint64("v")
		var g uint64
		if desc {
			prep(memcomparable.EncodeUint64Desc(b, v))
			left, g, err = memcomparable.DecodeUint64Desc(all)
		} else {
			prep(memcomparable.EncodeUint64(b, v))
			left, g, err = memcomparable.DecodeUint64(all)
		}
		sym.Assert(g == v, "uint64 decodes to itself")
	case 2:
		v := sym.Byte("v")
		var g byte
		if desc {
			prep(memcomparable.EncodeUint8Desc(b, v))
			left, g, err = memcomparable.DecodeUint8Desc(all)
		} else {
			prep(memcomparable.EncodeUint8(b, v))
			left, g, err = memcomparable.DecodeUint8(all)
		}
		sym.Assert(g == v, "uint8 decodes to itself")
	default:
		v := sym.Float64("v")
		sym.Assume(v == v)
		var g float64
		if desc {
			prep(memcomparable.EncodeFloat64Desc(b, v))
			left, g, err = memcomparable.DecodeFloat64Desc(all)
		} else {
			prep(memcomparable.EncodeFloat64(b, v))
			left, g, err = memcomparable.DecodeFloat64(all)
		}
		sym.Assert(g == v, "float64 decodes to itself")
		sym.Assert(sym.Or(v == 0, math.Float64bits(g) == math.Float64bits(v)), "float64 decodes to the same bits")
	}
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(eq(left, rest), "decoding returns exactly what follows")
	sym.Assert(eq(all, allKeep), "decoding leaves its input alone")
	sym.Cover("end")
}

// compact varints: every 64-bit value.
//
//sym:opt secs=120
func C02_Varint() {
	b, pre := buf("pre", 2, 40)
	var left, all, rest []byte
	var err error
	if sym.FixBool(sym.Bool("signed")) {
		v := sym.Int64("v")
		all, rest = withRest(appended(compact.EncodeVarint(b, v), b, pre))
		var g int64
		left, g, err = compact.DecodeVarint(all)
		sym.Assert(g == v, "varint decodes to itself")
	} else {
		v := sym.Uint64("v")
		all, rest = withRest(appended(compact.EncodeUvarint(b, v), b, pre))
		var g uint64
		left, g, err = compact.DecodeUvarint(all)
		sym.Assert(g == v, "uvarint decodes to itself")
	}
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(eq(left, rest), "decoding returns exactly what follows")
	sym.Cover("end")
}

// compact byte strings; 63 to 65 bytes cross the length-prefix width.
//
//sym:opt secs=120
func C02_CompactBytes() {
	n := sym.Choice("len", pick(20, 40))
	if n == 19 {
		n = 63 + sym.Choice("long", 3)
	}
	data := sym.Bytes("data", n)
	keep := clone(data)
	b, pre := buf("pre", 2, 100)
	all, rest := withRest(appended(compact.EncodeBytes(b, data), b, pre))
	allKeep := clone(all)
	left, got, err := compact.DecodeBytes(all)
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(eq(got, keep), "decoding returns the encoded bytes")
	sym.Assert(eq(left, rest), "decoding returns exactly what follows")
	sym.Assert(eq(all, allKeep), "decoding leaves its input alone")
	sym.Cover("end")
}

// fixed-width binary counters: every value.
func C02_Binary() {
	b, pre := buf("pre", 2, 40)
	v := sym.Uint64("v")
	enc := appended(numeric.Encode2Binary(v, b), b, pre)
	keep := clone(enc)
	g, err := numeric.DecodeFromBinary(enc)
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(g == v, "value decodes to itself")
	sym.Assert(eq(enc, keep), "decoding leaves its input alone")
	sym.Cover("end")
}

// decimal text: every 64-bit value. The engine represents the text of a symbolic
// number as one opaque token, so this decides that nothing is lost around the
// standard library's formatting and parsing.
func C02_Human() {
	v := sym.Int64("v")
	enc := numeric.Encode2Human(v)
	g, err := numeric.DecodeFromHuman(enc)
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(g == v, "value decodes to itself")
	sym.Cover("end")
}

// decimal text with the standard library's formatting and parsing executed too.
//
//sym:opt secs=120 nointr=strconv.ParseInt,strconv.FormatInt
func C02_HumanText() {
	v := sym.Int64("v")
	m := int64(pick(999, 99999))
	sym.Assume(sym.And(v >= -m, v <= m))
	enc := numeric.Encode2Human(v)
	g, err := numeric.DecodeFromHuman(enc)
	sym.Assert(err == nil, "decoding an encoding succeeds")
	sym.Assert(g == v, "value decodes to itself")
	sym.Cover("end")
}
