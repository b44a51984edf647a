package hkv

import (
	"bytes"

	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/compact"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

// lengths around the group size and around the powers of two up to 64 kB; from 300
// bytes on only the ends of a string are arbitrary.
func long(name string, quick, all []int) []byte {
	ls := quick
	if sym.Thorough() {
		ls = all
	}
	n := ls[sym.Choice(name+".long", len(ls))]
	b := make([]byte, n)
	for i := range b {
		if n < 300 || i < 10 || i >= n-10 {
			b[i] = sym.Byte(name)
		} else {
			b[i] = byte(i*7 + i>>8)
		}
	}
	return b
}

// byte strings with a long common beginning and arbitrary ends.
//
//sym:opt secs=60 tsecs=600
func C01_LongBytes() {
	p := long("p", []int{23, 24, 40, 56, 64, 127, 128, 256, 1000}, []int{23, 24, 25, 31, 32, 33, 39, 40, 41, 48, 56, 63, 64, 65, 72, 80, 96, 120, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 65536})
	m := pick(2, 9)
	x, y := str("x", m), str("y", m)
	a, b := append(clone(p), x...), append(clone(p), y...)
	lt, same := bytes.Compare(x, y) < 0, bytes.Equal(x, y)
	if sym.FixBool(sym.Bool("desc")) {
		order(lt, same, memcomparable.EncodeBytesDesc(nil, a), memcomparable.EncodeBytesDesc(nil, b), true)
	} else {
		order(lt, same, memcomparable.EncodeBytes(nil, a), memcomparable.EncodeBytes(nil, b), false)
	}
	sym.Cover("end")
}

// long byte strings of two lengths that differ early.
//
//sym:opt secs=60 tsecs=600
func C01_LongDifferent() {
	n := pick(40, 120)
	a, b := sym.Bytes("a", n+sym.Choice("a.more", pick(3, 17))), sym.Bytes("b", n+16+sym.Choice("b.more", pick(3, 17)))
	k := []int{0, 7, 8, 31, 32, n - 1}[sym.Choice("differ", 6)]
	for i := 0; i < k; i++ {
		a[i] = b[i]
	}
	lt := a[k] < b[k]
	sym.Assume(a[k] != b[k])
	if sym.FixBool(sym.Bool("desc")) {
		order(lt, false, memcomparable.EncodeBytesDesc(nil, a), memcomparable.EncodeBytesDesc(nil, b), true)
	} else {
		order(lt, false, memcomparable.EncodeBytes(nil, a), memcomparable.EncodeBytes(nil, b), false)
	}
	sym.Cover("end")
}

// long byte strings through both byte-string codecs, appended to buffers with and
// without room.
//
//sym:opt secs=100 tsecs=600 steps=20000000
func C02_Long() {
	data := long("data", []int{24, 39, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 8192, 32768, 65536},
		[]int{24, 31, 32, 33, 39, 40, 41, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 299, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000})
	keep := clone(data)
	var b []byte
	if sym.FixBool(sym.Bool("room")) {
		b = make([]byte, 3, 2*len(data)+100)
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = 0xa5
		}
	} else {
		b = []byte{0xa5, 0xa5, 0xa5}
	}
	pre := clone(b)
	rest := []byte{0, 0xff, sym.Byte("rest")}
	check := func(left, got, all []byte, err error, allKeep []byte) {
		sym.Assert(err == nil, "decoding an encoding succeeds")
		sym.Assert(eq(got, keep), "decoding returns the encoded bytes")
		sym.Assert(eq(left, rest), "decoding returns exactly what follows")
		sym.Assert(eq(all, allKeep), "decoding leaves its input alone")
	}
	switch sym.Choice("codec", 3) {
	case 0:
		enc := appended(memcomparable.EncodeBytes(b, data), b, pre)
		sym.Assert(len(enc) == memcomparable.EncodedBytesLength(len(data)), "announced length is the actual length")
		all := append(clone(enc), rest...)
		k := clone(all)
		left, got, err := memcomparable.DecodeBytes(all, nil)
		check(left, got, all, err, k)
	case 1:
		enc := appended(memcomparable.EncodeBytesDesc(b, data), b, pre)
		all := append(clone(enc), rest...)
		k := clone(all)
		left, got, err := memcomparable.DecodeBytesDesc(all, make([]byte, 5, 2*len(data)))
		check(left, got, all, err, k)
	default:
		enc := appended(compact.EncodeBytes(b, data), b, pre)
		all := append(clone(enc), rest...)
		k := clone(all)
		left, got, err := compact.DecodeBytes(all)
		check(left, got, all, err, k)
	}
	sym.Assert(eq(data, keep), "encoding leaves its input alone")
	sym.Cover("end")
}

// the announced length for every length: each eight bytes cost nine, and the last,
// incomplete group costs nine as well.
func C02_LongLength() {
	n := sym.Int("n")
	sym.Assume(sym.And(n >= 0, n < 1<<40))
	l := memcomparable.EncodedBytesLength(n)
	sym.Assert(l == (n>>3+1)*9, "announced length is the actual length")
	sym.Cover("end")
}

// inputs that start with many complete groups and end arbitrarily.
//
//sym:opt secs=60 tsecs=600
func C03_LongBytes() {
	groups := []int{3, 7, 8, 16, 32}[sym.Choice("groups", 5)]
	desc := sym.FixBool(sym.Bool("desc"))
	full := byte(0xff)
	if desc {
		full = 0
	}
	var in []byte
	for i := 0; i < groups; i++ {
		in = append(append(in, sym.Bytes("group", 8)...), full)
	}
	in = append(in, str("tail", pick(10, 19))...)
	keep := clone(in)
	var left, got []byte
	var err error
	if desc {
		left, got, err = memcomparable.DecodeBytesDesc(in, nil)
	} else {
		left, got, err = memcomparable.DecodeBytes(in, nil)
	}
	sym.Assert(eq(in, keep), "decoding leaves its input alone")
	if err != nil {
		sym.Cover("rejected")
		return
	}
	used := suffix(in, left)
	var re []byte
	if desc {
		re = memcomparable.EncodeBytesDesc(nil, got)
	} else {
		re = memcomparable.EncodeBytes(nil, got)
	}
	sym.Assert(eq(re, used), "what is accepted is an encoding")
	sym.Cover("accepted")
}

// compact strings whose announced length is anything, in an input of some length.
//
//sym:opt secs=60 tsecs=600
func C03_LongCompact() {
	in := append(str("head", 2), make([]byte, []int{0, 63, 64, 130, 250}[sym.Choice("body", 5)])...)
	keep := clone(in)
	left, got, err := compact.DecodeBytes(in)
	sym.Assert(eq(in, keep), "decoding leaves its input alone")
	if err != nil {
		sym.Cover("rejected")
		return
	}
	used := suffix(in, left)
	sym.Assert(len(got) <= len(used) && eq(used[len(used)-len(got):], got), "the value is what stands before the remainder")
	sym.Cover("accepted")
}

var keyLens = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256}

func longKey(name string) kv.Key {
	n := keyLens[sym.Choice(name+".long", len(keyLens))]
	b := make([]byte, n, n+2)
	for i := range b {
		b[i] = sym.Byte(name)
	}
	return b
}

// Long keys: the next key, and the prefix-next key whatever the number of trailing 0xff
// bytes.
//
//sym:opt secs=60 tsecs=600
func C04_Long() {
	k := longKey("k")
	keep := clone(k)
	spare := clone(k[:cap(k)])
	n := k.Next()
	sym.Assert(eq(n, append(clone(keep), 0)), "the next key is the key and a zero byte")
	sym.Assert((&kv.KeyRange{StartKey: k, EndKey: n}).IsPoint(), "a key and its next are a point")
	ffs := sym.Choice("trailing", len(k)+1)
	for i := range k {
		if i >= len(k)-ffs {
			sym.Assume(k[i] == 0xff)
		}
	}
	if ffs < len(k) {
		sym.Assume(k[len(k)-1-ffs] != 0xff)
	}
	want := clone(k)
	if ffs == len(k) {
		want = append(want, 0)
	} else {
		for i := len(k) - ffs; i < len(k); i++ {
			want[i] = 0
		}
		want[len(k)-1-ffs]++
	}
	p := k.PrefixNext()
	sym.Assert(eq(p, want), "the prefix-next key is the smallest of its length above the prefix")
	sym.Assert((&kv.KeyRange{StartKey: k, EndKey: p}).IsPoint(), "a key and its prefix-next are a point")
	q := clone(p)
	at := []int{0, len(q) / 2, len(q) - 1}[sym.Choice("at", 3)]
	q[at] ^= 1 + sym.Byte("other")&0x7f
	sym.Assert(sym.Or((&kv.KeyRange{StartKey: k, EndKey: q}).IsPoint() == false, eq(q, append(clone(k), 0))), "a key and anything else are no point")
	sym.Assert(p.Cmp(k) > 0 && n.Cmp(k) > 0 && k.Cmp(n) < 0 && k.Clone().Cmp(k) == 0, "comparison agrees with byte order")
	sym.Assert(n.HasPrefix(k) && !k.HasPrefix(n), "prefix test agrees with bytes")
	sym.Assert(eq(k, keep) && eq(k[:cap(k)], spare), "the key is unchanged")
	n[0] ^= 0x55
	p[0] ^= 0x55
	sym.Assert(eq(k[:cap(k)], spare), "the results do not share memory with the key")
	sym.Cover("end")
}
