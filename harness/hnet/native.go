//go:build symnative

package hnet

import (
	"errors"
	"fmt"
	"github.com/zhiqiangxu/mondis"
	"net"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// cutter breaks connections to one address.
type cutter struct {
	mu         sync.Mutex
	addr       string
	send, recv int
}

func newCutter(addr string) *cutter { return &cutter{addr: addr} }

func (c *cutter) config() qrpc.ConnectionConfig {
	return qrpc.ConnectionConfig{OverlayNetwork: func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		nc, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err != nil {
			return nil, err
		}
		return &cutConn{Conn: nc, c: c}, nil
	}}
}

func (c *cutter) arm(send, recv int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.send, c.recv = send, recv
}

// cutConn counts the frames the client writes, each of them written at once.
type cutConn struct {
	net.Conn
	c    *cutter
	sent int
}

var errCut = errors.New("connection cut")

func (k *cutConn) Write(b []byte) (int, error) {
	k.c.mu.Lock()
	k.sent++
	cut := k.c.send > 0 && k.sent >= k.c.send
	if cut {
		k.c.send = 0
	}
	k.c.mu.Unlock()
	if cut {
		k.Conn.Close()
		return 0, errCut
	}
	return k.Conn.Write(b)
}

func (k *cutConn) Read(b []byte) (int, error) {
	n, err := k.Conn.Read(b)
	k.c.mu.Lock()
	cut := err == nil && n > 0 && k.c.recv > 0 && k.sent >= k.c.recv
	if cut {
		k.c.recv = 0
	}
	k.c.mu.Unlock()
	if cut {
		k.Conn.Close()
		return 0, errCut
	}
	return n, err
}

// crowd keeps a connection busy, so that frames are written together.
func crowd(c mondis.Client) (stop func()) {
	quit := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-quit:
					return
				default:
				}
				c.Get([]byte("a"))
			}
		}()
	}
	return func() { close(quit); wg.Wait() }
}

// tries is how often something happens that depends on chance natively.
const tries = 300

func up(addr string) {
	for i := 0; i < 100; i++ {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	panic(fmt.Sprint("no server at ", addr))
}

// hush lets the other side finish.
func hush(done func() bool) {
	for i := 0; i < 100 && !done(); i++ {
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
}
