//go:build symnative

package hprov

import (
	"bytes"
	"runtime/debug"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
)

// fill writes until nothing fits any more.
func fill(t mondis.ProviderTxn) {
	for n := 60000; n > 0; n /= 2 {
		for i := 0; i < 1000000; i++ {
			k := make([]byte, n+8)
			k[0] = 'f'
			k[1], k[2], k[3] = byte(i), byte(i>>8), byte(i>>16)
			err := t.Set(k, nil, nil)
			if err != nil && n == 1 {
				return
			}
			if err != nil {
				break
			}
		}
	}
	_ = kv.ErrTxnTooBig
}

// intact compares; a value whose memory is gone is not intact.
func intact(got, want []byte) (ok bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return bytes.Equal(got, want)
}
