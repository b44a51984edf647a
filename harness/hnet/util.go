// Package hnet holds the harnesses of the wire format, the client and the server
// (C13, C14, C15 and the remote part of C16).
package hnet

import (
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// str is an arbitrary byte string whose length is one of ls.
func str(n string, ls ...int) []byte { return sym.Bytes(n, ls[sym.Choice(n+".len", len(ls))]) }

func flip(n string) bool { return sym.FixBool(sym.Bool(n)) }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}
