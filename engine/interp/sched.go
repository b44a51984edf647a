package interp

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// thread is an interpreted goroutine; exactly one runs at a time.
type thread struct {
	id     int
	p      *path
	fr     *frame
	resume chan struct{}
	ready  func() bool // nil: runnable
	what   string
	done   bool
	gone   chan struct{}
	daemon bool
}

type timer struct {
	when int64
	seq  int
	fire func()
	dead bool
	ch   *channel
}

func (p *path) newThread(parent *thread) *thread {
	t := &thread{id: len(p.threads), p: p, resume: make(chan struct{}), gone: make(chan struct{})}
	p.threads = append(p.threads, t)
	return t
}

type killed struct{}

// run is the body of the Go goroutine carrying an interpreted goroutine.
func (t *thread) run(f func()) {
	p := t.p
	<-t.resume
	defer close(t.gone)
	if p.killing {
		t.done = true
		return
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case killed:
				t.done = true
				return
			case *pathEnd:
				p.finish(r)
			case *targetPanic:
				msg := "uncaught panic: " + p.panicText(r.v)
				func() {
					defer func() {
						if rr := recover(); rr != nil {
							if pe, ok := rr.(*pathEnd); ok {
								p.finish(pe)
								return
							}
							panic(rr)
						}
					}()
					p.trace = append(p.trace, "panic at "+r.tr)
					p.violationContinue(msg, p.model)
					p.finish(&pathEnd{Violated, msg + " at " + r.tr})
				}()
			default:
				buf := fmt.Sprintf("engine failure: %v", r)
				if e, ok := r.(error); ok {
					buf = "engine failure: " + e.Error()
				}
				where := ""
				if t.fr != nil && t.fr.code != nil {
					where = t.fr.where()
				}
				if debugPanics {
					panic(r)
				}
				p.finish(&pathEnd{Unsupported, buf + " in " + where})
			}
			t.done = true
		}()
		f()
	}()
	if p.killing {
		return
	}
	t.done = true
	if t.id == 0 && p.end == nil {
		p.finish(nil)
		return
	}
	if p.end != nil || p.finished() {
		return
	}
	p.schedule(t, false)
}

var debugPanics = false

func (p *path) finished() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *path) finish(e *pathEnd) {
	if p.finished() {
		return
	}
	p.end = e
	close(p.done)
}

func (p *path) killAll() {
	p.killing = true
	for _, t := range p.threads {
		select {
		case <-t.gone:
			continue
		default:
		}
		select {
		case t.resume <- struct{}{}:
			<-t.gone
		case <-t.gone:
		}
	}
}

func (p *path) panicText(v value) string {
	i, ok := v.(iface)
	if !ok {
		return show(v, 0)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		if typeName(i.t) == "runtime.errorString" {
			return "runtime error: " + s
		}
		return s
	}
	if pv, ok := i.v.(*value); ok && pv != nil {
		if st, ok := (*pv).(structure); ok && len(st) > 0 {
			if s, ok := st[0].(string); ok {
				return s
			}
		}
	}
	return show(v, 0)
}

// spawn starts an interpreted goroutine.
func (p *path) spawn(fr *frame, fn value, args []value) *thread {
	if len(p.threads) > 2000 {
		p.abort(Limit, "more than 2000 goroutines")
	}
	t := p.newThread(fr.th)
	if p.races != nil {
		p.races.forked(fr.th.id, t.id)
	}
	go t.run(func() { callFn(nil, t, fn, args, nil) })
	if p.interleave && p.races == nil {
		fr.yield("go")
	}
	return t
}

// schedule hands the baton to another runnable thread. self keeps waiting when it is still alive.
func (p *path) schedule(self *thread, wait bool) {
	next := p.pick(self)
	if next == nil {
		return // path finished
	}
	if next == self {
		return
	}
	p.cur = next
	next.resume <- struct{}{}
	if wait {
		<-self.resume
		if p.killing {
			panic(killed{})
		}
	}
}

func (p *path) runnable() []*thread {
	var o []*thread
	for _, t := range p.threads {
		if t.done {
			continue
		}
		if t.ready == nil || t.ready() {
			o = append(o, t)
		}
	}
	return o
}

// pick selects the next thread to run, advancing virtual time when all are blocked.
func (p *path) pick(self *thread) *thread {
	for {
		r := p.runnable()
		if len(r) == 0 {
			if p.fireTimer() {
				continue
			}
			if p.finished() { // out of time
				if self != nil && !self.done {
					panic(killed{})
				}
				return nil
			}
			m := "deadlock: every goroutine is blocked"
			for _, t := range p.threads {
				if !t.done {
					m += fmt.Sprintf("; g%d %s", t.id, t.what)
					if t.fr != nil && t.fr.code != nil {
						m += " in " + t.fr.code.name
					}
				}
			}
			p.violationContinue("deadlock: every goroutine is blocked", p.model)
			p.trace = append(p.trace, m)
			p.finish(&pathEnd{Violated, m})
			if self != nil && !self.done {
				panic(killed{})
			}
			return nil
		}
		if len(r) == 1 || !p.interleave {
			// prefer the lowest thread after self in round-robin order for fairness
			if self != nil {
				for _, t := range r {
					if t.id > self.id {
						return t
					}
				}
			}
			return r[0]
		}
		// a symbolic scheduler decision
		return r[p.chooseSched(r)]
	}
}

func (p *path) chooseSched(r []*thread) int {
	return p.choose(len(r), "sched")
}

// block waits until ready() holds.
func (fr *frame) block(what string, ready func() bool) {
	p, t := fr.p, fr.th
	if ready() {
		return
	}
	t.ready, t.what = ready, what
	for !ready() {
		p.schedule(t, true)
	}
	t.ready, t.what = nil, ""
	t.fr = fr
	p.cur = t
}

// yield lets other goroutines run (interleaving mode, bounded preemptions).
func (fr *frame) yield(what string) {
	p, t := fr.p, fr.th
	if !p.interleave || p.preempts >= p.maxPre {
		return
	}
	r := p.runnable()
	if len(r) < 2 {
		return
	}
	// order: self first
	sort.SliceStable(r, func(i, j int) bool { return r[i] == t && r[j] != t })
	c := p.choose(len(r), "sched")
	if r[c] == t {
		return
	}
	p.preempts++
	p.cur = r[c]
	r[c].resume <- struct{}{}
	<-t.resume
	if p.killing {
		panic(killed{})
	}
	p.cur = t
}

// gosched always offers the baton (cooperative).
func (fr *frame) gosched() {
	p, t := fr.p, fr.th
	if p.interleave {
		fr.yield("gosched")
		return
	}
	r := p.runnable()
	if len(r) < 2 {
		return
	}
	p.schedule(t, true)
	p.cur = t
}

func (p *path) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{when: p.now + d, seq: len(p.timers), fire: fire}
	p.timers = append(p.timers, t)
	return t
}

func (p *path) fireTimer() bool {
	var best *timer
	for _, t := range p.timers {
		if t.dead {
			continue
		}
		if best == nil || t.when < best.when {
			best = t
		}
	}
	if best == nil {
		return false
	}
	p.fires++
	if p.fires > 3000 {
		p.violationContinue(NoEnd, p.model)
		p.finish(&pathEnd{Limit, "more than 3000 timer expirations"})
		return false
	}
	if best.when > p.now {
		p.now = best.when
	}
	best.dead = true
	best.fire()
	var live []*timer
	for _, t := range p.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	p.timers = live
	return true
}

func (fr *frame) sleep(d int64) {
	p := fr.p
	woke := false
	p.addTimer(d, func() { woke = true })
	fr.block("sleep", func() bool { return woke })
}

// ---- channels

type sendReq struct {
	v    value
	done bool
	sel  *selState
	idx  int
}

type recvReq struct {
	v    value
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	v     value
	ok    bool
}

type channel struct {
	cap    int
	buf    []value
	closed bool
	sendq  []*sendReq
	recvq  []*recvReq
}

func (c *channel) popSend() *sendReq {
	for len(c.sendq) > 0 {
		s := c.sendq[0]
		c.sendq = c.sendq[1:]
		if s.sel != nil {
			if s.sel.fired {
				continue
			}
			s.sel.fired, s.sel.idx = true, s.idx
		}
		s.done = true
		return s
	}
	return nil
}

func (c *channel) popRecv(v value, ok bool) bool {
	for len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		if r.sel != nil {
			if r.sel.fired {
				continue
			}
			r.sel.fired, r.sel.idx, r.sel.v, r.sel.ok = true, r.idx, v, ok
		}
		r.v, r.ok, r.done = v, ok, true
		return true
	}
	return false
}

func (c *channel) canSend() bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	for _, r := range c.recvq {
		if r.sel == nil || !r.sel.fired {
			return true
		}
	}
	return false
}

func (c *channel) canRecv() bool {
	if c == nil {
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	for _, s := range c.sendq {
		if s.sel == nil || !s.sel.fired {
			return true
		}
	}
	return false
}

// trySend performs a send that canSend.
func (fr *frame) doSend(c *channel, v value) {
	if c.closed {
		panic(&targetPanic{v: fr.p.runtimeError("send on closed channel"), tr: fr.where()})
	}
	if c.popRecv(v, true) {
		return
	}
	c.buf = append(c.buf, v)
}

func (fr *frame) doRecv(c *channel) (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if s := c.popSend(); s != nil {
			c.buf = append(c.buf, s.v)
		}
		return v, true
	}
	if s := c.popSend(); s != nil {
		return s.v, true
	}
	return nil, false // closed
}

func (fr *frame) send(c *channel, v value) {
	fr.yield("send")
	if c == nil {
		fr.block("send on nil channel", func() bool { return false })
	}
	if c.canSend() {
		fr.hb(c)
		fr.doSend(c, v)
		return
	}
	fr.release(c)
	r := &sendReq{v: v}
	c.sendq = append(c.sendq, r)
	fr.block("chan send", func() bool { return r.done || c.closed })
	fr.acquire(c)
	if !r.done {
		panic(&targetPanic{v: fr.p.runtimeError("send on closed channel"), tr: fr.where()})
	}
}

func (fr *frame) recv(c *channel) (value, bool) {
	fr.yield("recv")
	if c == nil {
		fr.block("receive from nil channel", func() bool { return false })
	}
	if c.canRecv() {
		fr.hb(c)
		return fr.doRecv(c)
	}
	fr.release(c)
	r := &recvReq{}
	c.recvq = append(c.recvq, r)
	fr.block("chan receive", func() bool { return r.done })
	fr.acquire(c)
	return r.v, r.ok
}

func (fr *frame) closeChan(c *channel) {
	if c == nil {
		fr.rtPanic("close of nil channel")
	}
	if c.closed {
		panic(&targetPanic{v: fr.p.runtimeError("close of closed channel"), tr: fr.where()})
	}
	c.closed = true
	fr.release(c)
	for c.popRecv(nil, false) {
	}
}

func (cc *compiler) sel(ins *ssa.Select, dst int32) instr {
	type cs struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var cases []cs
	for _, s := range ins.States {
		k := cs{ch: cc.op(s.Chan), send: s.Dir == types.SendOnly, et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if k.send {
			k.v = cc.op(s.Send)
		}
		cases = append(cases, k)
	}
	blocking := ins.Blocking
	return func(fr *frame) {
		fr.yield("select")
		chans := make([]*channel, len(cases))
		vals := make([]value, len(cases))
		for i := range cases {
			chans[i] = cases[i].ch.get(fr).(*channel)
			if cases[i].send {
				vals[i] = cases[i].v.get(fr)
			}
		}
		var rdy []int
		for i, k := range cases {
			if k.send && chans[i].canSend() || !k.send && chans[i].canRecv() {
				rdy = append(rdy, i)
			}
		}
		idx := -1
		var rv value
		rok := false
		switch {
		case len(rdy) > 0:
			c := 0
			if len(rdy) > 1 && fr.p.interleave {
				c = fr.p.choose(len(rdy), "select")
			}
			idx = rdy[c]
			fr.hb(chans[idx])
			if cases[idx].send {
				fr.doSend(chans[idx], copyVal(vals[idx]))
			} else {
				rv, rok = fr.doRecv(chans[idx])
			}
		case blocking:
			st := &selState{}
			for i, k := range cases {
				if chans[i] == nil {
					continue
				}
				fr.release(chans[i])
				if k.send {
					chans[i].sendq = append(chans[i].sendq, &sendReq{v: copyVal(vals[i]), sel: st, idx: i})
				} else {
					chans[i].recvq = append(chans[i].recvq, &recvReq{sel: st, idx: i})
				}
			}
			sendClosed := func() bool {
				for i, k := range cases {
					if k.send && chans[i] != nil && chans[i].closed {
						return true
					}
				}
				return false
			}
			fr.block("select", func() bool { return st.fired || sendClosed() })
			if !st.fired {
				panic(&targetPanic{v: fr.p.runtimeError("send on closed channel"), tr: fr.where()})
			}
			idx, rv, rok = st.idx, st.v, st.ok
			fr.acquire(chans[idx])
		}
		// result tuple: index, recvOk, then one value per receive case
		t := tuple{uint64(int64(idx)), rok}
		for i, k := range cases {
			if k.send {
				continue
			}
			if i == idx && rok {
				t = append(t, rv)
			} else {
				t = append(t, zero(k.et))
			}
		}
		fr.regs[dst] = t
	}
}

// ---- sync primitives

// readers keys what releases of read locks order.
type readers struct{ m *mutexState }

type mutexState struct {
	w       bool
	r       int
	waiting int
	owner   int
}

func (p *path) mutex(a value) *mutexState {
	c, ok := a.(*value)
	if !ok || c == nil {
		p.cur.fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if s, ok := p.syncSt[c]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{}
	p.syncSt[c] = s
	return s
}

func (fr *frame) lock(m *mutexState) {
	fr.yield("lock")
	if m.w || m.r > 0 {
		m.waiting++
		fr.block("Lock", func() bool { return !m.w && m.r == 0 })
		m.waiting--
	}
	m.w = true
	fr.acquire(m)
	fr.acquire(readers{m})
	m.owner = fr.th.id
}

func (fr *frame) unlock(m *mutexState) {
	if !m.w {
		fr.p.violation("fatal error: unlock of an unlocked mutex", nil)
	}
	m.w = false
	fr.release(m)
	fr.released()
}

func (fr *frame) rlock(m *mutexState) {
	fr.yield("rlock")
	if m.w || m.waiting > 0 {
		fr.block("RLock", func() bool { return !m.w && m.waiting == 0 })
	}
	m.r++
	fr.acquire(m)
}

func (fr *frame) runlock(m *mutexState) {
	if m.r == 0 {
		fr.p.violation("fatal error: RUnlock of an unlocked RWMutex", nil)
	}
	m.r--
	fr.release(readers{m})
	fr.released()
}

// released is a scheduling point after a lock was given back. Where data races are
// looked for, the next scheduling point of the goroutine does as well.
func (fr *frame) released() {
	if fr.p.races == nil {
		fr.yield("unlock")
	}
}

type onceState struct {
	done, running bool
}

type wgState struct{ n int64 }
