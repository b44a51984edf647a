//go:build !symnative

package hnet

import (
	"github.com/zhiqiangxu/mondis"
	"time"

	"github.com/zhiqiangxu/mondis/zzverif/mqrpc"
	"github.com/zhiqiangxu/qrpc"
)

var ports int

func freeAddr() string {
	ports++
	return "addr" + string(rune('0'+ports))
}

// cutter breaks connections to one address.
type cutter struct{ addr string }

func newCutter(addr string) *cutter { return &cutter{addr} }

func (c *cutter) config() qrpc.ConnectionConfig { return qrpc.ConnectionConfig{} }

// crowd keeps a connection busy, so that frames are written together.
func crowd(c mondis.Client) (stop func()) { return func() {} }

// tries is how often something happens that depends on chance natively.
const tries = 1

// arm makes the connection that is open break at the n-th frame of the client from its start.
func (c *cutter) arm(send, recv int) { mqrpc.Cut(c.addr, send, recv) }

func up(addr string) { time.Sleep(time.Second) }

// hush lets the other side finish.
func hush(done func() bool) { time.Sleep(time.Second) }
