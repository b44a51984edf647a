// Package mqrpc puts a model of qrpc's frames and streams in place of its sockets: one
// queue of frames each way per connection, delivered in order by a goroutine, with the
// stream bookkeeping of qrpc (stream.go, clientconn.go, serveconn.go). Natively nothing
// of this is used: client and server talk over a loopback socket.
package mqrpc

import (
	"context"
	"errors"

	"github.com/zhiqiangxu/mondis/zzverif/sym"
	"github.com/zhiqiangxu/qrpc"
)

// stream is one end of a stream.
type stream struct {
	id                             uint64
	l                              *link
	e                              *end
	ch                             chan *qrpc.Frame
	self, peer, full, bound, reset bool
	done                           chan struct{}
	q                              *qrpc.Stream
}

// end is one end of a link.
type end struct {
	streams map[uint64]*stream
	in      chan *qrpc.Frame
	respes  map[uint64]chan *qrpc.Frame // client end only
	server  bool
}

// link is one established connection.
type link struct {
	srv    *server
	c, s   *end
	dead   chan struct{}
	closed bool
	sent   int // frames the client has sent
}

type server struct {
	bindings []qrpc.ServerBinding
	stop     chan struct{}
	stopped  bool
	links    []*link
}

type conn struct {
	addr string
	l    *link
	rid  uint64
	// frames may be written together with other frames; qrpc looks only the first of
	// them up among the streams that exist
	batch bool
}

var (
	servers = map[*qrpc.Server]*server{}
	addrs   = map[string]*server{}
	conns   = map[*qrpc.Connection]*conn{}
	streams = map[*qrpc.Stream]*stream{}

	// faults of the next connection(s) to an address
	cutSend = map[string]int{}
	cutRecv = map[string]int{}
)

// Cut breaks connections to addr: instead of sending the n-th frame (send), or when
// the answer to the n-th frame arrives (recv); 0 means never. Frames count from the
// start of the connection that is open, and the next one is sound.
func Cut(addr string, send, recv int) { cutSend[addr], cutRecv[addr] = send, recv }

// Sent is the number of frames sent on the connection that is open.
func Sent(c *qrpc.Connection) int { return conns[c].l.sent }

var errBroken = errors.New("broken pipe")

//sym:replace github.com/zhiqiangxu/qrpc.NewServer
func NewServer(bindings []qrpc.ServerBinding) *qrpc.Server {
	s := new(qrpc.Server)
	servers[s] = &server{bindings: bindings, stop: make(chan struct{})}
	return s
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Server).ListenAndServe
func listenAndServe(q *qrpc.Server) error {
	s := servers[q]
	for _, b := range s.bindings {
		addrs[b.Addr] = s
	}
	<-s.stop
	return qrpc.ErrServerClosed
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Server).Shutdown
func shutdown(q *qrpc.Server) error {
	s := servers[q]
	if !s.stopped {
		s.stopped = true
		close(s.stop)
		for _, b := range s.bindings {
			delete(addrs, b.Addr)
		}
		for _, l := range s.links {
			l.close()
		}
	}
	return nil
}

//sym:replace github.com/zhiqiangxu/qrpc.NewConnectionWithReconnect
func NewConnectionWithReconnect(as []string, cfg qrpc.ConnectionConfig, _ qrpc.SubFunc) *qrpc.Connection {
	q := new(qrpc.Connection)
	c := &conn{addr: as[0], batch: cfg.WriteFrameChSize > 1}
	conns[q] = c
	c.dial()
	return q
}

func (c *conn) dial() {
	s := addrs[c.addr]
	if s == nil {
		c.l = nil
		return
	}
	l := &link{srv: s, dead: make(chan struct{}),
		c: &end{streams: map[uint64]*stream{}, in: make(chan *qrpc.Frame, 64), respes: map[uint64]chan *qrpc.Frame{}},
		s: &end{streams: map[uint64]*stream{}, in: make(chan *qrpc.Frame, 64), server: true}}
	s.links = append(s.links, l)
	c.l = l
	go l.read(l.c)
	go l.read(l.s)
}

// close is the end of a connection for both sides.
func (l *link) close() {
	if l.closed {
		return
	}
	l.closed = true
	close(l.dead)
}

func (l *link) get(e *end, id uint64, create bool) *stream {
	st := e.streams[id]
	if st == nil && create {
		st = &stream{id: id, l: l, e: e, ch: make(chan *qrpc.Frame), done: make(chan struct{}), q: new(qrpc.Stream)}
		e.streams[id] = st
		streams[st.q] = st
	}
	return st
}

// read delivers the frames that arrive at one end.
func (l *link) read(e *end) {
	for {
		select {
		case f := <-e.in:
			if !l.deliver(e, f) {
				l.free(e)
				return
			}
		case <-l.dead:
			// what was written before the connection was closed still arrives
			select {
			case f := <-e.in:
				if l.deliver(e, f) {
					continue
				}
			default:
			}
			l.free(e)
			return
		}
	}
}

func (l *link) free(e *end) {
	if !e.server {
		for _, ch := range e.respes {
			close(ch)
		}
		e.respes = map[uint64]chan *qrpc.Frame{}
	}
	for _, st := range e.streams {
		st.resetByPeer()
	}
	e.streams = map[uint64]*stream{}
}

func (l *link) deliver(e *end, f *qrpc.Frame) bool {
	if f.Flags.IsRst() {
		if st := l.get(e, f.RequestID, false); st != nil {
			st.resetByPeer()
		}
		return true
	}
	st := l.get(e, f.RequestID, true)
	if st.bound {
		if st.peer {
			// qrpc waits until the stream is closed at this end
			select {
			case <-st.done:
			case <-l.dead:
				return false
			}
			return true
		}
		select {
		case st.ch <- f:
			st.closePeer(f.Flags)
		case <-l.dead:
			return false
		}
		return true
	}
	st.bound = true
	st.closePeer(f.Flags)
	f.Stream = st.q
	if e.server {
		go l.handle((*qrpc.RequestFrame)(f), st)
		return true
	}
	if ch := e.respes[f.RequestID]; ch != nil {
		delete(e.respes, f.RequestID)
		ch <- f
	}
	return true
}

func (st *stream) closePeer(flags qrpc.FrameFlag) {
	if !flags.IsDone() {
		return
	}
	st.peer = true
	close(st.ch)
	if st.self {
		st.after()
	}
}

func (st *stream) resetByPeer() {
	if !st.peer {
		st.peer = true
		close(st.ch)
	}
}

func (st *stream) after() {
	if !st.full {
		st.full = true
		delete(st.e.streams, st.id)
		close(st.done)
	}
}

// out accounts for a frame that is about to be written.
func (st *stream) out(flags qrpc.FrameFlag) bool {
	if flags.IsRst() {
		old := st.self
		st.self = true
		if st.peer {
			st.after()
			return !old
		}
		return true
	}
	if st.self {
		return false
	}
	if flags.IsDone() {
		st.self = true
		if st.peer {
			st.after()
		}
	}
	return true
}

// handle runs the server's handler for the first frame of a stream.
func (l *link) handle(f *qrpc.RequestFrame, st *stream) {
	defer func() {
		recover()
		if !st.self {
			w := &writer{l: l}
			w.StartWrite(f.RequestID, 0, qrpc.StreamRstFlag)
			w.EndWrite()
		}
	}()
	l.srv.bindings[0].Handler.ServeQRPC(&writer{l: l}, f)
}

// writer is the server's writer.
type writer struct {
	l     *link
	id    uint64
	cmd   qrpc.Cmd
	flags qrpc.FrameFlag
	buf   []byte
}

func (w *writer) StartWrite(id uint64, cmd qrpc.Cmd, flags qrpc.FrameFlag) {
	w.id, w.cmd, w.flags = id, cmd, flags
}
func (w *writer) WriteBytes(v []byte) { w.buf = append(w.buf, v...) }
func (w *writer) EndWrite() error {
	buf := w.buf
	w.buf = nil
	l := w.l
	if l.closed {
		return context.Canceled
	}
	rst := w.flags.IsRst()
	st := l.get(l.s, w.id, !rst)
	if st == nil {
		return qrpc.ErrRstNonExistingStream
	}
	if !st.out(w.flags) {
		if rst {
			return nil
		}
		return qrpc.ErrWriteAfterCloseSelf
	}
	if n := cutRecv[l.srv.bindings[0].Addr]; n > 0 && l.sent >= n {
		cutRecv[l.srv.bindings[0].Addr] = 0
		l.close()
		return nil
	}
	l.c.in <- &qrpc.Frame{RequestID: w.id, Cmd: w.cmd, Flags: w.flags, Payload: buf}
	return nil
}
func (w *writer) EndWriteCompressed() error { return w.EndWrite() }
func (w *writer) ResetFrame(id uint64, reason qrpc.Cmd) error {
	w.StartWrite(id, reason, qrpc.StreamRstFlag)
	return w.EndWrite()
}

// send writes one frame of the client.
func (c *conn) send(f *qrpc.Frame, check bool, resp chan *qrpc.Frame) error {
	if c.l == nil || c.l.closed {
		c.dial()
	}
	l := c.l
	if l == nil {
		return qrpc.ErrConnAlreadyClosed
	}
	if check && c.batch && sym.FixBool(sym.Bool("written together with other frames")) {
		check = false
	}
	st := l.get(l.c, f.RequestID, !check)
	if st == nil {
		return qrpc.ErrStreamNotExists
	}
	if !st.out(f.Flags) {
		return qrpc.ErrWriteAfterCloseSelf
	}
	if resp != nil {
		l.c.respes[f.RequestID] = resp
	}
	l.sent++
	if n := cutSend[c.addr]; n > 0 && l.sent >= n {
		cutSend[c.addr] = 0
		l.close()
		return errBroken
	}
	l.s.in <- f
	return nil
}

type response struct{ ch chan *qrpc.Frame }

func (r *response) GetFrame() (*qrpc.Frame, error) {
	f := <-r.ch
	if f == nil {
		return nil, qrpc.ErrConnAlreadyClosed
	}
	return f, nil
}
func (r *response) GetFrameWithContext(ctx context.Context) (*qrpc.Frame, error) {
	select {
	case f := <-r.ch:
		if f == nil {
			return nil, qrpc.ErrConnAlreadyClosed
		}
		return f, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (c *conn) first(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, *response, error) {
	c.rid++
	id := 2*c.rid + 1
	r := &response{make(chan *qrpc.Frame, 1)}
	f := &qrpc.Frame{RequestID: id, Cmd: cmd & 0xffffff, Flags: flags, Payload: append([]byte(nil), payload...)}
	if err := c.send(f, false, r.ch); err != nil {
		return 0, nil, err
	}
	return id, r, nil
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Connection).Request
func request(q *qrpc.Connection, cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error) {
	id, r, err := conns[q].first(cmd, flags.ToNonStream(), payload)
	if err != nil {
		return 0, nil, err
	}
	return id, r, nil
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Connection).StreamRequest
func streamRequest(q *qrpc.Connection, cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error) {
	c := conns[q]
	flags = flags.ToStream()
	id, r, err := c.first(cmd, flags, payload)
	if err != nil {
		return nil, nil, err
	}
	return &streamWriter{c: c, id: id, flags: flags}, r, nil
}

type streamWriter struct {
	c     *conn
	id    uint64
	cmd   qrpc.Cmd
	flags qrpc.FrameFlag
	buf   []byte
}

func (w *streamWriter) RequestID() uint64       { return w.id }
func (w *streamWriter) StartWrite(cmd qrpc.Cmd) { w.cmd = cmd }
func (w *streamWriter) WriteBytes(v []byte)     { w.buf = append(w.buf, v...) }
func (w *streamWriter) EndWrite(end bool) error {
	if end {
		w.flags = w.flags.ToEndStream()
	}
	f := &qrpc.Frame{RequestID: w.id, Cmd: w.cmd, Flags: w.flags, Payload: w.buf}
	w.buf = nil
	return w.c.send(f, true, nil)
}
func (w *streamWriter) EndWriteCompressed() error { return w.EndWrite(false) }
func (w *streamWriter) ResetFrame(reason qrpc.Cmd) error {
	return w.c.send(&qrpc.Frame{RequestID: w.id, Cmd: reason, Flags: qrpc.StreamRstFlag}, true, nil)
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Frame).FrameCh
func frameCh(f *qrpc.Frame) <-chan *qrpc.Frame { return streams[f.Stream].ch }

//sym:replace (*github.com/zhiqiangxu/qrpc.RequestFrame).FrameCh
func requestFrameCh(f *qrpc.RequestFrame) <-chan *qrpc.Frame { return streams[f.Stream].ch }

//sym:replace (*github.com/zhiqiangxu/qrpc.RequestFrame).Close
func requestFrameClose(f *qrpc.RequestFrame) error {
	streams[f.Stream].l.close()
	return nil
}

//sym:replace (*github.com/zhiqiangxu/qrpc.Connection).Close
func connClose(q *qrpc.Connection) error {
	if l := conns[q].l; l != nil {
		l.close()
	}
	return nil
}
