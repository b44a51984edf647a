//go:build !symnative

package hprov

import (
	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/zzverif/mbadger"
	_ "github.com/zhiqiangxu/mondis/zzverif/mlevel"
)

func fill(t mondis.ProviderTxn) { mbadger.Fill((*badger.Txn)(t.(*provider.Txn))) }

func intact(got, want []byte) bool { return eq(got, want) }
