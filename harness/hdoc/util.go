// Package hdoc holds harnesses over the document database and its catalogue.
package hdoc

import "github.com/zhiqiangxu/mondis/zzverif/sym"

func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func str(name string, max int) string {
	return string(sym.Bytes(name, sym.Choice(name+".len", max+1)))
}

func flip(name string) bool { return sym.FixBool(sym.Bool(name)) }

// eq is byte equality as one condition (no path split on the contents).
func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

func eqs(a, b string) bool { return eq([]byte(a), []byte(b)) }

// pre is byte prefix as one condition.
func pre(a, p []byte) bool { return len(a) >= len(p) && eq(a[:len(p)], p) }
