package interp

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
	"gosym/term"
)

// Config bounds an exploration.
type Config struct {
	Workers       int
	MaxPaths      int64
	MaxSteps      int64
	MaxDecisions  int
	MaxConcretize int
	MaxDepth      int
	Races         bool
	DepthFatal    bool // a call chain deeper than that is a violation
	Deadline      time.Time
	SolverPath    string
	SolverMS      int
	Thorough      bool
	MapPerm       bool
	NumText       bool              // symbolic numbers are formatted as tokens instead of being resolved
	Pin           map[string]uint64 // variables to fix (for debugging)
	MaxViolations int
	OnViolation   func(*Violation)
	Trace         bool
	NoIntr        map[string]bool // functions to execute instead of modelling
}

// Violation is a counterexample.
type Violation struct {
	Harness string
	Msg     string
	Values  map[string]uint64
	Trace   []string
	Order   []int // goroutines in the order in which they passed sym.Yield
}

// Result of exploring one harness.
type Result struct {
	mu          sync.Mutex
	Harness     string
	Paths       int64
	ByOutcome   map[string]int64
	Msgs        map[string]int64 // unsupported/limit/inconclusive reasons
	Notes       map[string]int64
	Asserts     int64
	Proved      int64 // assertion instances discharged by the solver
	Concrete    int64 // assertion instances that were constant on their path
	AssertMsgs  map[string]int64
	Covers      map[string]int64
	Violations  []*Violation
	on          func(*Violation)
	violByMsg   map[string]int
	Unknown     int64
	Left        int64
	Steps       int64
	Decisions   int64
	MaxDec      int
	Vars        int
	Funcs       map[string]bool
	Solver      smt.Stats
	Wall        time.Duration
	TimedOut    bool
	SampleModel []map[string]uint64
	Cut         []*Violation // inputs of paths the engine could not follow to their end
	cutBy       map[string]int
	sampled     int
	rndState    uint64
}

const (
	sampleSize = 6
	cutPerMsg  = 2
	cutSize    = 12
)

func (r *Result) rnd(n int) int {
	r.rndState = r.rndState*6364136223846793005 + 1442695040888963407
	return int((r.rndState >> 33) % uint64(n))
}

func (r *Result) unknown() { atomic.AddInt64(&r.Unknown, 1) }
func (r *Result) note(s string) {
	r.mu.Lock()
	r.Notes[s]++
	r.mu.Unlock()
}
func (r *Result) assertion(msg string, solved bool) {
	r.mu.Lock()
	r.Asserts++
	r.AssertMsgs[msg]++
	if solved {
		r.Proved++
	} else {
		r.Concrete++
	}
	r.mu.Unlock()
}
func (r *Result) violation(v *Violation) {
	if r.on != nil {
		r.on(v)
	}
	r.mu.Lock()
	r.violByMsg[v.Msg]++
	if r.violByMsg[v.Msg] <= 6 {
		r.Violations = append(r.Violations, v)
	}
	r.mu.Unlock()
}

// Engine owns the loaded program.
type Engine struct {
	Prog  *ssa.Program
	Cfg   Config
	codes sync.Map // *ssa.Function -> *code
	redir map[string]*ssa.Function
	meths sync.Map
	impls sync.Map
	ld    *Loaded

	harness string
	runMu   sync.Mutex
	pool    []*work
	cond    *sync.Cond
	idle    int
	stop    bool
	nIdle   int32
	poolN   int32

	typeMu sync.Mutex
	named  map[string]types.Type
}

type worker struct {
	e      *Engine
	id     int
	tab    *term.Table
	sol    *smt.Solver
	local  []*work
	res    *Result
	funcs  map[*code]bool
	recent []map[string]uint64
}

func (w *worker) push(x *work) {
	if atomic.LoadInt32(&w.e.nIdle) > atomic.LoadInt32(&w.e.poolN) {
		w.e.runMu.Lock()
		w.e.pool = append(w.e.pool, x)
		atomic.StoreInt32(&w.e.poolN, int32(len(w.e.pool)))
		w.e.cond.Signal()
		w.e.runMu.Unlock()
		return
	}
	w.local = append(w.local, x)
}

func (w *worker) next() *work {
	e := w.e
	if n := len(w.local); n > 0 {
		// share the oldest with idle workers
		if n > 1 && atomic.LoadInt32(&e.nIdle) > atomic.LoadInt32(&e.poolN) {
			e.runMu.Lock()
			e.pool = append(e.pool, w.local[0])
			atomic.StoreInt32(&e.poolN, int32(len(e.pool)))
			e.cond.Signal()
			e.runMu.Unlock()
			w.local = w.local[1:]
			n--
		}
		x := w.local[n-1]
		w.local = w.local[:n-1]
		return x
	}
	e.runMu.Lock()
	defer e.runMu.Unlock()
	for {
		if n := len(e.pool); n > 0 {
			x := e.pool[0]
			e.pool = e.pool[1:]
			atomic.StoreInt32(&e.poolN, int32(len(e.pool)))
			return x
		}
		if e.stop {
			return nil
		}
		e.idle++
		atomic.StoreInt32(&e.nIdle, int32(e.idle))
		if e.idle == e.Cfg.Workers {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
		e.idle--
		atomic.StoreInt32(&e.nIdle, int32(e.idle))
	}
}

func (w *worker) solve(pc []*term.Term, extra *term.Term) (smt.Result, map[string]uint64) {
	// try recent models first
	if extra != nil {
	next:
		for i := len(w.recent) - 1; i >= 0; i-- {
			m := w.recent[i]
			memo := map[int32]uint64{}
			if term.Eval(extra, m, memo) != 1 {
				continue
			}
			for j := len(pc) - 1; j >= 0; j-- {
				if term.Eval(pc[j], m, memo) != 1 {
					continue next
				}
			}
			return smt.Sat, m
		}
	}
	r, m := w.sol.Check(pc, extra)
	if r == smt.Sat {
		w.recent = append(w.recent, m)
		if len(w.recent) > 6 {
			w.recent = w.recent[1:]
		}
	}
	return r, m
}

// Run explores harness fn.
func (e *Engine) Run(fn *ssa.Function) *Result {
	res := &Result{Harness: fn.Name(), on: e.Cfg.OnViolation, ByOutcome: map[string]int64{}, Msgs: map[string]int64{}, Notes: map[string]int64{},
		AssertMsgs: map[string]int64{}, Covers: map[string]int64{}, violByMsg: map[string]int{}, cutBy: map[string]int{}, Funcs: map[string]bool{}}
	e.harness = fn.Name()
	e.cond = sync.NewCond(&e.runMu)
	e.pool = []*work{{}}
	e.poolN = 1
	e.idle, e.nIdle, e.stop = 0, 0, false
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < e.Cfg.Workers; i++ {
		w := &worker{e: e, id: i, res: res, funcs: map[*code]bool{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop(fn)
		}()
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Msg < res.Violations[j].Msg })
	return res
}

func (w *worker) loop(fn *ssa.Function) {
	w.tab = term.NewTable()
	w.sol = smt.New(w.e.Cfg.SolverPath, w.e.Cfg.SolverMS)
	defer func() {
		w.sol.Close()
		w.res.mu.Lock()
		w.res.Solver.Add(w.sol.Stats)
		for c := range w.funcs {
			w.res.Funcs[c.name] = true
		}
		w.res.mu.Unlock()
	}()
	for {
		x := w.next()
		if x == nil {
			return
		}
		r := w.res
		over := time.Now().After(w.e.Cfg.Deadline)
		if over || w.e.Cfg.MaxPaths > 0 && atomic.LoadInt64(&r.Paths) >= w.e.Cfg.MaxPaths {
			atomic.AddInt64(&r.Left, 1)
			r.mu.Lock()
			r.TimedOut = true
			r.mu.Unlock()
			continue
		}
		atomic.AddInt64(&r.Paths, 1)
		w.runPath(fn, x)
		if w.tab.N > 600000 {
			w.tab = term.NewTable()
			w.sol.Close()
		}
	}
}

func (w *worker) runPath(fn *ssa.Function, x *work) {
	p := &path{w: w, e: w.e, tab: w.tab, pre: x.prefix, model: x.model, memo: map[int32]uint64{},
		known: map[int32]bool{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
		occ: map[string]int{}, covers: map[string]bool{}, done: make(chan struct{}),
		side: map[string]map[interface{}]value{}, syncSt: map[*value]interface{}{},
		maxStep: w.e.Cfg.MaxSteps, mapPerm: w.e.Cfg.MapPerm}
	if p.model == nil {
		p.model = map[string]uint64{}
	}
	main := p.newThread(nil)
	p.cur = main
	go main.run(func() { callFn(nil, main, fn, nil, nil) })
	main.resume <- struct{}{}
	<-p.done
	p.killAll()
	end := p.end
	r := w.res
	r.mu.Lock()
	defer r.mu.Unlock()
	out, msg := OK, ""
	if end != nil {
		out, msg = end.out, end.msg
	}
	r.ByOutcome[out.String()]++
	if out != OK && out != Infeasible {
		r.Msgs[out.String()+": "+msg]++
	}
	if (out == Unsupported || out == Limit) && len(r.Cut) < cutSize && r.cutBy[msg] < cutPerMsg {
		r.cutBy[msg]++
		m := map[string]uint64{}
		for _, v := range p.vars {
			m[v.name] = p.model[v.key] & term.Mask64(v.w)
		}
		r.Cut = append(r.Cut, &Violation{Harness: w.e.harness, Msg: out.String() + ": " + msg, Values: m, Order: append([]int(nil), p.order...)})
	}
	r.Steps += p.steps
	r.Decisions += int64(len(p.decs))
	if len(p.decs) > r.MaxDec {
		r.MaxDec = len(p.decs)
	}
	if len(p.vars) > r.Vars {
		r.Vars = len(p.vars)
	}
	for c := range p.covers {
		if out == OK {
			r.Covers[c]++
		}
	}
	if out == OK && len(p.vars) > 0 {
		r.sampled++
	}
	// a random sample of the completed paths, one input of each
	slot := -1
	if out == OK && len(p.vars) > 0 {
		if len(r.SampleModel) < sampleSize {
			slot = len(r.SampleModel)
			r.SampleModel = append(r.SampleModel, nil)
		} else if k := r.rnd(r.sampled); k < sampleSize {
			slot = k
		}
	}
	if slot >= 0 {
		m := map[string]uint64{}
		for _, v := range p.vars {
			m[v.name] = p.model[v.key] & term.Mask64(v.w)
		}
		r.SampleModel[slot] = m
	}
	if os.Getenv("GOSYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "path %s %s decs=%d steps=%d trace=%v\n", out, msg, len(p.decs), p.steps, p.trace)
	}
}

var _ = debug.Stack
