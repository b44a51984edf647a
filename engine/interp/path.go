package interp

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
	"gosym/term"
)

// Outcome of one path.
type Outcome int

const (
	OK Outcome = iota
	Infeasible
	Violated
	Unsupported
	Limit
	Inconclusive
)

func (o Outcome) String() string {
	return [...]string{"ok", "infeasible", "violated", "unsupported", "limit", "inconclusive"}[o]
}

type pathEnd struct {
	out Outcome
	msg string
}

// decision records one resolved choice point; replayed verbatim on re-execution.
type decision struct {
	taken  bool
	forced bool
	isVal  bool // a concretisation pick: val is the tried value
	val    uint64
	h      uint64 // hash of the condition, to detect divergence
}

// work is an unexplored path.
type work struct {
	prefix []decision
	model  map[string]uint64
}

type symVar struct {
	name string
	w    uint8
	t    *term.Term
	key  string // the solver's name for it
}

type path struct {
	w     *worker
	e     *Engine
	tab   *term.Table
	pre   []decision
	decs  []decision
	pc    []*term.Term
	known map[int32]bool // term id -> truth on this path
	model map[string]uint64
	memo  map[int32]uint64

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int
	vars    []symVar
	occ     map[string]int
	covers  map[string]bool
	asserts int
	steps   int64
	maxStep int64

	// scheduler
	threads    []*thread
	cur        *thread
	done       chan struct{}
	end        *pathEnd
	endMu      sync.Mutex
	killing    bool
	now        int64
	timers     []*timer
	interleave bool
	order      []int // goroutines in the order in which they passed sym.Yield
	preempts   int
	races      *races
	maxPre     int
	schedN     int
	fires      int

	side    map[string]map[interface{}]value // side tables of intrinsics
	tokens  []*jsonToken
	bsrc    []value // the BSON document being decoded
	btok    *jsonToken
	notes   map[string]bool
	trace   []string
	mapPerm bool
	syncSt  map[*value]interface{}
	rtypes  map[types.Type]*value
}

func (p *path) abort(out Outcome, format string, args ...interface{}) {
	msg := format
	if len(args) > 0 {
		msg = fmt.Sprintf(format, args...)
	}
	panic(&pathEnd{out, msg})
}

func (p *path) unsupported(format string, args ...interface{}) {
	p.abort(Unsupported, format, args...)
}

// addPC asserts c on this path.
func (p *path) addPC(c *term.Term) {
	if c.IsTrue() {
		return
	}
	p.learn(c, true)
	p.pc = append(p.pc, c)
}

func (p *path) learn(c *term.Term, v bool) {
	p.known[c.ID] = v
	p.known[p.tab.Not(c).ID] = !v
	if v && c.Op == term.OAnd {
		p.learn(c.A, true)
		p.learn(c.B, true)
	}
	if !v && c.Op == term.OOr {
		p.learn(c.A, false)
		p.learn(c.B, false)
	}
	if c.Op == term.ONot {
		p.known[c.A.ID] = !v
		if v && c.A.Op == term.OOr {
			p.learn(c.A.A, false)
			p.learn(c.A.B, false)
		}
	}
}

func (p *path) eval(t *term.Term) uint64 { return term.Eval(t, p.model, p.memo) }

func (p *path) check(extra *term.Term) (smt.Result, map[string]uint64) {
	r, m := p.w.solve(p.pc, extra)
	if r == smt.Sat {
		memo := map[int32]uint64{}
		if extra != nil && term.Eval(extra, m, memo) != 1 {
			p.abort(Inconclusive, "solver model does not satisfy the query under the evaluator")
		}
		for _, c := range p.pc {
			if term.Eval(c, m, memo) != 1 {
				p.abort(Inconclusive, "solver model does not satisfy the path condition under the evaluator")
			}
		}
	}
	return r, m
}

// branch resolves a boolean to a concrete truth value on this path, queueing the other side.
func (p *path) branch(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *term.Term:
		return p.branchT(v)
	}
	panic(fmt.Sprintf("branch on %T", v))
}

func (p *path) branchT(c *term.Term) bool {
	if c.IsConst() {
		return c.K == 1
	}
	if k, ok := p.known[c.ID]; ok {
		return k
	}
	d, replay := p.nextDecision(c)
	if replay {
		p.apply(c, d)
		return d.taken
	}
	side := p.eval(c) == 1
	other := c
	if side {
		other = p.tab.Not(c)
	}
	r, m := p.check(other)
	d = decision{taken: side, h: c.H}
	switch r {
	case smt.Unsat:
		d.forced = true
	case smt.Sat:
		alt := decision{taken: !side, h: c.H}
		p.w.push(&work{prefix: append(append([]decision(nil), p.decs...), alt), model: m})
	default:
		p.note("solver gave no answer on a branch; the other side was not explored")
		p.w.res.unknown()
	}
	p.decs = append(p.decs, d)
	p.apply(c, d)
	return side
}

func (p *path) nextDecision(c *term.Term) (decision, bool) {
	if len(p.decs) < len(p.pre) {
		d := p.pre[len(p.decs)]
		if d.h != c.H {
			p.abort(Inconclusive, "replay divergence")
		}
		p.decs = append(p.decs, d)
		return d, true
	}
	if len(p.decs) > p.e.Cfg.MaxDecisions {
		p.abort(Limit, "more than %d decisions on one path", p.e.Cfg.MaxDecisions)
	}
	return decision{}, false
}

func (p *path) apply(c *term.Term, d decision) {
	if d.forced {
		p.learn(c, d.taken)
		return
	}
	if d.taken {
		p.addPC(c)
	} else {
		p.addPC(p.tab.Not(c))
	}
}

// concretize picks a value of t on this path, queueing all the others.
func (p *path) concretize(t *term.Term, what string) uint64 {
	if t.IsConst() {
		return t.K
	}
	for n := 0; ; n++ {
		if n > p.e.Cfg.MaxConcretize {
			p.abort(Limit, "more than %d values when concretising %s", p.e.Cfg.MaxConcretize, what)
		}
		d, replay := p.nextDecision(t)
		if replay {
			if !d.isVal {
				p.abort(Inconclusive, "replay divergence at a concretisation (%s)", what)
			}
			c := p.tab.Eq(t, p.tab.Const(t.W, d.val))
			p.apply(c, d)
			if d.taken {
				return d.val
			}
			continue
		}
		v := p.eval(t)
		c := p.tab.Eq(t, p.tab.Const(t.W, v))
		d = decision{taken: true, isVal: true, val: v, h: t.H}
		if k, ok := p.known[c.ID]; ok && k {
			d.forced = true
		} else {
			r, m := p.check(p.tab.Not(c))
			switch r {
			case smt.Unsat:
				d.forced = true
			case smt.Sat:
				alt := decision{taken: false, isVal: true, val: v, h: t.H}
				p.w.push(&work{prefix: append(append([]decision(nil), p.decs...), alt), model: m})
			default:
				p.note("solver gave no answer on a concretisation; other values were not explored")
				p.w.res.unknown()
			}
		}
		p.decs = append(p.decs, d)
		p.apply(c, d)
		return v
	}
}

// assume constrains the path, ending it when impossible.
func (p *path) assume(v value) {
	switch v := v.(type) {
	case bool:
		if !v {
			p.abort(Infeasible, "assumption false")
		}
	case *term.Term:
		if k, ok := p.known[v.ID]; ok {
			if !k {
				p.abort(Infeasible, "assumption false")
			}
			return
		}
		d, replay := p.nextDecision(v)
		if replay {
			p.apply(v, d)
			return
		}
		if p.eval(v) != 1 {
			r, m := p.check(v)
			switch r {
			case smt.Sat:
				p.model, p.memo = m, map[int32]uint64{}
			case smt.Unsat:
				p.abort(Infeasible, "assumption unsatisfiable")
			default:
				p.w.res.unknown()
				p.abort(Inconclusive, "solver gave no answer on an assumption")
			}
		}
		d = decision{taken: true, h: v.H}
		p.decs = append(p.decs, d)
		p.apply(v, d)
	}
}

// assert checks that v holds for every value consistent with the path.
func (p *path) assert(v value, msg string) {
	p.asserts++
	switch v := v.(type) {
	case bool:
		if !v {
			p.violation(msg, nil)
		} else {
			p.w.res.assertion(msg, false)
		}
	case *term.Term:
		if v.IsConst() {
			p.assert(v.K == 1, msg)
			return
		}
		if k, ok := p.known[v.ID]; ok {
			p.assert(k, msg)
			return
		}
		d, replay := p.nextDecision(v)
		if replay {
			switch d.val {
			case assertProved:
				p.learn(v, true)
			case assertAssumed:
				p.addPC(v)
			case assertDead:
				p.abort(Violated, "%s", msg)
			}
			return
		}
		rec := func(k uint64) {
			p.decs = append(p.decs, decision{taken: true, val: k, h: v.H})
		}
		if p.eval(v) == 1 {
			r, m := p.check(p.tab.Not(v))
			switch r {
			case smt.Unsat:
				p.w.res.assertion(msg, true)
				rec(assertProved)
				p.learn(v, true)
			case smt.Sat:
				p.violationContinue(msg, m)
				rec(assertAssumed)
				p.addPC(v)
			default:
				p.w.res.unknown()
				p.note("solver gave no answer on an assertion: " + msg)
				rec(assertUnknown)
			}
			return
		}
		p.violationContinue(msg, p.model)
		// continue under the assumption that it held, when that is possible
		r, m := p.check(v)
		if r != smt.Sat {
			rec(assertDead)
			p.abort(Violated, "%s", msg)
		}
		p.model, p.memo = m, map[int32]uint64{}
		rec(assertAssumed)
		p.addPC(v)
	}
}

const (
	assertProved = iota
	assertAssumed
	assertUnknown
	assertDead
)

// NoEnd is reported for a path that does not end within its bounds; only a native run
// that does not end either confirms it.
const NoEnd = "what was called does not end"

func (p *path) violation(msg string, m map[string]uint64) {
	p.violationContinue(msg, p.model)
	p.abort(Violated, "%s", msg)
}

func (p *path) violationContinue(msg string, m map[string]uint64) {
	vals := map[string]uint64{}
	for _, v := range p.vars {
		vals[v.name] = m[v.key] & term.Mask64(v.w)
	}
	p.w.res.violation(&Violation{Harness: p.w.e.harness, Msg: msg, Values: vals, Trace: append([]string(nil), p.trace...), Order: append([]int(nil), p.order...)})
}

func (p *path) note(s string) { p.w.res.note(s) }

// newVar makes a fresh symbolic variable; names get an occurrence number.
func (p *path) newVar(name string, w uint8) *term.Term {
	n := p.occ[name]
	p.occ[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	key := full
	if w != 64 {
		key = fmt.Sprintf("%s:%d", full, w)
	}
	if v, ok := p.e.Cfg.Pin[full]; ok {
		return p.tab.Const(w, v&term.Mask(w))
	}
	t := p.tab.Var(key, w)
	p.vars = append(p.vars, symVar{full, w, t, key})
	return t
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var _ = strings.Join
