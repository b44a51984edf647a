package hstruct

import (
	"bytes"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/mondis/zzverif/store"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

func pick(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// name is an arbitrary byte string whose length is one of ls.
func name(n string, ls ...int) []byte { return sym.Bytes(n, ls[sym.Choice(n+".len", len(ls))]) }

func clone(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// session runs operations in one transaction, or, when split is chosen, commits
// between any two of them.
type session struct {
	db    *store.DB
	txn   mondis.ProviderTxn
	split bool
	pre   []byte
}

func begin(pre []byte, split bool) *session {
	s := &session{db: store.Open(), split: split, pre: pre}
	s.txn = s.db.NewTransaction(true)
	return s
}

func (s *session) t() *structure.TxStructure { return structure.New(s.txn, s.pre) }

// step ends an operation.
func (s *session) step() {
	if s.split {
		s.commit()
	}
}

func (s *session) commit() {
	err := s.txn.Commit()
	sym.Assert(err == nil, "commit of a lone transaction succeeds")
	s.txn = s.db.NewTransaction(true)
}

// end commits and checks that the store holds nothing when it should be empty.
func (s *session) end(empty bool) {
	err := s.txn.Commit()
	sym.Assert(err == nil, "commit of a lone transaction succeeds")
	if empty {
		sym.Assert(len(s.db.Dump()) == 0, "what has become empty leaves nothing behind")
	}
}

func hasPrefix(a, p []byte) bool { return bytes.HasPrefix(a, p) }
