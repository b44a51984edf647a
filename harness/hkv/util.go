package hkv

import "github.com/zhiqiangxu/mondis/zzverif/sym"

// str is an arbitrary byte string of at most max bytes.
func str(name string, max int) []byte {
	return sym.Bytes(name, sym.Choice(name+".len", max+1))
}

// buf is a destination buffer with arbitrary contents, in a backing array of
// arbitrary spare capacity, and a copy of the contents.
func buf(name string, max, spare int) (b, copyOf []byte) {
	n := sym.Choice(name+".len", max+1)
	c := sym.Choice(name+".spare", 3)
	switch c {
	case 0:
		c = 0
	case 1:
		c = 3
	default:
		c = spare
	}
	b = make([]byte, n, n+c)
	for i := range b {
		b[i] = sym.Byte(name)
	}
	copyOf = append([]byte(nil), b...)
	if n == 0 && c == 0 {
		b = nil
	}
	return
}

func clone(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// eq is byte equality as one condition (no path split on the contents).
func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}
