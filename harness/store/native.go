//go:build symnative

package store

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/provider"
)

func open(dir string) mondis.KVDB {
	b := provider.NewBadger()
	if err := b.Open(mondis.KVOption{Dir: dir}); err != nil {
		panic(err)
	}
	return b
}

func dump(k mondis.KVDB) []Ent {
	var out []Ent
	k.Scan(mondis.ProviderScanOption{}, func(key, value []byte, _ mondis.VMetaResp) bool {
		out = append(out, Ent{append([]byte(nil), key...), append([]byte(nil), value...)})
		return true
	})
	return out
}
