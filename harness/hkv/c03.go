package hkv

import (
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/kv/compact"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// suffix asserts that left is the tail of in and returns what was consumed.
func suffix(in, left []byte) []byte {
	sym.Assert(len(left) <= len(in), "the remainder is no longer than the input")
	used := in[:len(in)-len(left)]
	sym.Assert(eq(in[len(used):], left), "the remainder is a suffix of the input")
	return used
}

// the order-preserving byte-string decoders on every input.
//
//sym:opt secs=120 tsecs=600
func C03_Bytes() {
	in := str("in", pick(19, 28))
	keep := clone(in)
	desc := sym.FixBool(sym.Bool("desc"))
	var left, got []byte
	var err error
	if desc {
		left, got, err = memcomparable.DecodeBytesDesc(in, nil)
	} else {
		left, got, err = memcomparable.DecodeBytes(in, nil)
	}
	sym.Assert(eq(in, keep), "decoding leaves its input alone")
	if err != nil {
		sym.Cover("rejected")
		return
	}
	used := suffix(in, left)
	var re []byte
	if desc {
		re = memcomparable.EncodeBytesDesc(nil, got)
	} else {
		re = memcomparable.EncodeBytes(nil, got)
	}
	sym.Assert(eq(re, used), "what is accepted is an encoding")
	sym.Cover("accepted")
}

// the fixed-width decoders on every input.
func C03_Fixed() {
	in := str("in", 10)
	desc := sym.FixBool(sym.Bool("desc"))
	var left, re []byte
	var err error
	canon := true
	need := 8
	switch sym.Choice("kind", 5) {
	case 0:
		var v int64
		if desc {
			left, v, err = memcomparable.DecodeInt64Desc(in)
			re = memcomparable.EncodeInt64Desc(nil, v)
		} else {
			left, v, err = memcomparable.DecodeInt64(in)
			re = memcomparable.EncodeInt64(nil, v)
		}
	case 1:
		var v uint64
		if desc {
			left, v, err = memcomparable.DecodeUint64Desc(in)
			re = memcomparable.EncodeUint64Desc(nil, v)
		} else {
			left, v, err = memcomparable.DecodeUint64(in)
			re = memcomparable.EncodeUint64(nil, v)
		}
	case 2:
		need = 1
		var v uint8
		if desc {
			left, v, err = memcomparable.DecodeUint8Desc(in)
			re = memcomparable.EncodeUint8Desc(nil, v)
		} else {
			left, v, err = memcomparable.DecodeUint8(in)
			re = memcomparable.EncodeUint8(nil, v)
		}
	case 3:
		var v float64
		if desc {
			left, v, err = memcomparable.DecodeFloat64Desc(in)
			re = memcomparable.EncodeFloat64Desc(nil, v)
		} else {
			left, v, err = memcomparable.DecodeFloat64(in)
			re = memcomparable.EncodeFloat64(nil, v)
		}
		canon = sym.And(v == v, v != 0) // NaN has no encoding, and -0 encodes as +0
	default:
		var v uint64
		v, err = numeric.DecodeFromBinary(in)
		re = numeric.Encode2Binary(v, nil)
		sym.Assert((err == nil) == (len(in) == 8), "fixed-width text is accepted exactly at its width")
	}
	sym.Assert(sym.Or(err == nil, len(in) != need), "an input of the right width is accepted")
	if err != nil {
		sym.Cover("rejected")
		return
	}
	used := suffix(in, left)
	sym.Assert(sym.Implies(canon, eq(re, used)), "what is accepted is an encoding")
	sym.Cover("accepted")
}

// the compact decoders on every input.
//
//sym:opt secs=120 tsecs=600
func C03_Compact() {
	in := str("in", pick(12, 14))
	keep := clone(in)
	var left []byte
	var err error
	n := 0
	kind := sym.Choice("kind", 3)
	switch kind {
	case 0:
		left, _, err = compact.DecodeVarint(in)
	case 1:
		left, _, err = compact.DecodeUvarint(in)
	default:
		var got []byte
		left, got, err = compact.DecodeBytes(in)
		if err == nil {
			n = len(got)
			sym.Assert(n+len(left) <= len(in), "decoded bytes lie inside the input")
			off := len(in) - len(left) - len(got)
			sym.Assert(eq(in[off:off+len(got)], got), "decoded bytes precede the remainder")
		}
	}
	sym.Assert(eq(in, keep), "decoding leaves its input alone")
	if err != nil {
		sym.Cover("rejected")
		return
	}
	suffix(in, left)
	// what precedes the remainder (and the bytes of a byte string) is one number
	used := in[:len(in)-len(left)]
	if kind == 2 {
		used = used[:len(used)-n]
	}
	sym.Assert(len(used) > 0, "an accepted number has at least one byte")
	for i, c := range used {
		sym.Assert((c < 0x80) == (i == len(used)-1), "an accepted number ends where its encoding does")
	}
	sym.Cover("accepted")
}

// decimal text on every short input: the parse agrees with an independent reading.
//
//sym:opt secs=120 nointr=strconv.ParseInt
func C03_Human() {
	in := str("in", pick(3, 4))
	if len(in) == 0 && sym.Bool("nil") {
		in = nil
	}
	n, err := numeric.DecodeFromHuman(in)
	ok := len(in) > 0
	var v int64
	digits := 0
	neg := false
	for i := range in {
		c := in[i]
		if i == 0 && (c == '-' || c == '+') {
			neg = c == '-'
			continue
		}
		if c < '0' || c > '9' {
			ok = false
			break
		}
		v = v*10 + int64(c-'0')
		digits++
	}
	if neg {
		v = -v
	}
	ok = ok && digits > 0
	sym.Assert((err == nil) == ok, "exactly decimal numbers are accepted")
	if ok {
		sym.Assert(n == v, "the number read is the number written")
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

// the document-store key decoders on every input of every length around the real
// key lengths.
//
//sym:opt secs=120 tsecs=600
func C03_DocKeys() {
	switch sym.Choice("kind", 2) {
	case 0:
		in := sym.Bytes("in", sym.Choice("in.len", 28))
		cid, did, err := dml.DecodeCollectionDocumentKey(in)
		if err != nil {
			sym.Cover("rejected document key")
			return
		}
		re := dml.EncodeCollectionDocumentKey(nil, cid, did)
		sym.Assert(len(re) <= len(in) && eq(re, in[:len(re)]), "what is accepted is a document key")
		sym.Cover("accepted document key")
	default:
		in := sym.Bytes("in", sym.Choice("in.len", pick(38, 47)))
		cid, name, err := document.DecodeCollectionIndexName2IDKey(in)
		if err != nil {
			sym.Cover("rejected index name key")
			return
		}
		sym.Assert(eq(document.EncodeCollectionIndexName2IDKey(nil, cid, string(name)), in), "what is accepted is an index name key")
		cid2, name2, err := dml.DecodeCollectionIndexName2IDKey(in)
		sym.Assert(err == nil && cid2 == cid && eq(name2, name), "both decoders agree")
		sym.Cover("accepted index name key")
	}
}
