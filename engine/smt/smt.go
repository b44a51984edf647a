// Package smt drives an SMT solver process over SMT-LIB2 text.
package smt

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"gosym/term"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

// xEvery is how often a linear answer is checked against the bit-vector answer.
var xEvery = func() int64 {
	if v, err := strconv.ParseInt(os.Getenv("GOSYM_XCHECK"), 10, 64); err == nil {
		return v
	}
	return 200
}()

// Stats accumulates what a solver did.
type Stats struct {
	Queries, NSat, NUnsat, NUnknown int64
	Time                            time.Duration
	Restarts                        int64
	CrossChecked, Disagreed         int64
	Linear                          int64 // decided as linear integer arithmetic
}

func (a *Stats) Add(b Stats) {
	a.Queries += b.Queries
	a.NSat += b.NSat
	a.NUnsat += b.NUnsat
	a.NUnknown += b.NUnknown
	a.Time += b.Time
	a.Restarts += b.Restarts
	a.CrossChecked += b.CrossChecked
	a.Disagreed += b.Disagreed
	a.Linear += b.Linear
}

// Solver is one incremental solver process; all terms come from a single table.
type Solver struct {
	Path      string
	TimeoutMS int
	HardMS    int

	cmd     *exec.Cmd
	stdin   io.WriteCloser
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[int32]bool
	vars    []*term.Term
	stack   []*term.Term
	Stats   Stats
	buf     strings.Builder
	LastErr string
	ints    bool // speaks integer arithmetic
	lia     *lia
	bounded []int // per stack level: how many of vars have their range asserted
}

func New(path string, timeoutMS int) *Solver {
	s := &Solver{Path: path, TimeoutMS: timeoutMS, HardMS: timeoutMS * 6}
	s.lia = &lia{bound: map[int32]ival{}, bad: -1, sub: &Solver{Path: path, TimeoutMS: 3000, ints: true}}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Path, "-in", "-smt2")
	var err error
	if s.stdin, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	so, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(s.stdin, 1<<16)
	s.out = bufio.NewReaderSize(so, 1<<16)
	s.defined = map[int32]bool{}
	s.vars = nil
	s.stack = nil
	s.bounded = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.TimeoutMS)
	return nil
}

// Close ends the process; the next Check starts a new one.
func (s *Solver) Close() {
	if l := s.lia; l != nil {
		l.sub.kill()
		l.bound, l.undo, l.seen, l.bad = map[int32]ival{}, nil, nil, -1
	}
	s.kill()
}

func (s *Solver) kill() {
	if s.cmd == nil {
		return
	}
	s.stdin.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
	s.Stats.Restarts++
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(b *strings.Builder, x *term.Term) {
	switch x.Op {
	case term.OConst:
		if x.W == 0 {
			if x.K == 1 {
				b.WriteString("true")
			} else {
				b.WriteString("false")
			}
			return
		}
		b.WriteString("(_ bv")
		b.WriteString(strconv.FormatUint(x.K, 10))
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(int(x.W)))
		b.WriteByte(')')
	case term.OVar:
		b.WriteByte('v')
		b.WriteString(strconv.Itoa(int(x.ID)))
	default:
		b.WriteByte('t')
		b.WriteString(strconv.Itoa(int(x.ID)))
	}
}

var opName = map[term.Op]string{
	term.ONot: "not", term.OAnd: "and", term.OOr: "or", term.OEq: "=", term.OUlt: "bvult", term.OUle: "bvule",
	term.OSlt: "bvslt", term.OSle: "bvsle", term.OIte: "ite", term.OAdd: "bvadd", term.OSub: "bvsub",
	term.OMul: "bvmul", term.OUDiv: "bvudiv", term.OURem: "bvurem", term.OSDiv: "bvsdiv", term.OSRem: "bvsrem",
	term.OBAnd: "bvand", term.OBOr: "bvor", term.OBXor: "bvxor", term.OShl: "bvshl", term.OLshr: "bvlshr",
	term.OAshr: "bvashr", term.OConcat: "concat",
}

// define writes definitions for x and everything below it.
func define(b *strings.Builder, x *term.Term, defined map[int32]bool, vars *[]*term.Term) {
	if x == nil || x.Op == term.OConst || defined[x.ID] {
		return
	}
	// iterative post-order, the graphs can be deep
	type ent struct {
		x    *term.Term
		done bool
	}
	st := []ent{{x, false}}
	for len(st) > 0 {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		if e.x == nil || e.x.Op == term.OConst || defined[e.x.ID] {
			continue
		}
		if !e.done && e.x.Op != term.OVar {
			st = append(st, ent{e.x, true}, ent{e.x.A, false}, ent{e.x.B, false}, ent{e.x.C, false})
			continue
		}
		y := e.x
		defined[y.ID] = true
		if y.Op == term.OVar {
			*vars = append(*vars, y)
			b.WriteString("(declare-const ")
			ref(b, y)
			b.WriteByte(' ')
			b.WriteString(sortOf(y.W))
			b.WriteString(")\n")
			continue
		}
		b.WriteString("(define-fun ")
		ref(b, y)
		b.WriteString(" () ")
		b.WriteString(sortOf(y.W))
		b.WriteString(" (")
		switch y.Op {
		case term.OExtract:
			fmt.Fprintf(b, "(_ extract %d %d)", int(y.K)+int(y.W)-1, int(y.K))
		case term.OSExt:
			fmt.Fprintf(b, "(_ sign_extend %d)", int(y.W)-int(y.A.W))
		default:
			b.WriteString(opName[y.Op])
		}
		for _, o := range []*term.Term{y.A, y.B, y.C} {
			if o != nil {
				b.WriteByte(' ')
				ref(b, o)
			}
		}
		b.WriteString("))\n")
	}
}

// Check decides pc ∧ extra (extra may be nil). On Sat the model maps variable names to values.
func (s *Solver) Check(pc []*term.Term, extra *term.Term) (Result, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	r, m := Unknown, map[string]uint64(nil)
	if l := s.lia; l != nil && l.fits(pc, extra) {
		r, m = l.sub.check(pc, extra)
		if r != Unknown {
			s.Stats.Linear++
			if xEvery > 0 && s.Stats.Linear%xEvery == 0 {
				// the same query over bit-vectors
				s.Stats.CrossChecked++
				if r2, m2 := s.check(pc, extra); r2 != Unknown && r2 != r {
					s.Stats.Disagreed++
					r, m = r2, m2
				}
			}
		}
	}
	if r == Unknown {
		r, m = s.check(pc, extra)
	}
	if r == Unknown {
		r, m = s.OneShot(s.Path, pc, extra, s.HardMS)
	}
	switch r {
	case Sat:
		s.Stats.NSat++
	case Unsat:
		s.Stats.NUnsat++
	default:
		s.Stats.NUnknown++
	}
	return r, m
}

// bounds asserts the ranges of the integer variables from the given one on.
func (s *Solver) bounds(from int) {
	for _, v := range s.vars[from:] {
		if v.W >= 64 {
			fmt.Fprintf(&s.buf, "(assert (and (<= (- 9223372036854775808) v%d) (<= v%d 9223372036854775807)))\n", v.ID, v.ID)
		} else if v.W > 0 {
			fmt.Fprintf(&s.buf, "(assert (and (<= 0 v%d) (<= v%d %d)))\n", v.ID, v.ID, int64(1)<<v.W-1)
		}
	}
}

func (s *Solver) define(x *term.Term) {
	if s.ints {
		idefine(&s.buf, x, s.defined, &s.vars)
	} else {
		define(&s.buf, x, s.defined, &s.vars)
	}
}

// check asks the running process. After anything but a clear answer the process is in
// an unknown state and is discarded.
func (s *Solver) check(pc []*term.Term, extra *term.Term) (Result, map[string]uint64) {
	r, m := s.ask(pc, extra)
	if r == Unknown {
		s.kill()
	}
	return r, m
}

func (s *Solver) ask(pc []*term.Term, extra *term.Term) (Result, map[string]uint64) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.LastErr = err.Error()
			return Unknown, nil
		}
	}
	b := &s.buf
	b.Reset()
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(b, "(pop %d)\n", k)
	}
	s.stack = s.stack[:n]
	if s.ints {
		s.bounded = s.bounded[:n]
	}
	for _, c := range pc[n:] {
		s.define(c)
		b.WriteString("(push 1)\n(assert ")
		ref(b, c)
		b.WriteString(")\n")
		s.stack = append(s.stack, c)
		if s.ints {
			from := 0
			if k := len(s.bounded); k > 0 {
				from = s.bounded[k-1]
			}
			s.bounds(from)
			s.bounded = append(s.bounded, len(s.vars))
		}
	}
	if extra != nil {
		s.define(extra)
		b.WriteString("(push 1)\n(assert ")
		ref(b, extra)
		b.WriteString(")\n")
		if s.ints {
			from := 0
			if k := len(s.bounded); k > 0 {
				from = s.bounded[k-1]
			}
			s.bounds(from)
		}
	}
	b.WriteString("(check-sat)\n")
	if _, err := s.in.WriteString(b.String()); err != nil {
		s.LastErr = err.Error()
		return Unknown, nil
	}
	if err := s.in.Flush(); err != nil {
		s.LastErr = err.Error()
		return Unknown, nil
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.LastErr = err.Error()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	var res Result
	var model map[string]uint64
	switch line {
	case "sat":
		res = Sat
		model = map[string]uint64{}
		if len(s.vars) > 0 {
			b.Reset()
			b.WriteString("(get-value (")
			for _, v := range s.vars {
				ref(b, v)
				b.WriteByte(' ')
			}
			b.WriteString("))\n")
			s.in.WriteString(b.String())
			s.in.Flush()
			rd := readModel
			if s.ints {
				rd = readIntModel
			}
			if err := rd(s.out, s.vars, model); err != nil {
				s.LastErr = err.Error()
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
	default:
		s.LastErr = line
		return Unknown, nil
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, model
}

// readModel parses ((v1 #x..) (v2 true) ...).
func readModel(r *bufio.Reader, vars []*term.Term, model map[string]uint64) error {
	byID := make(map[string]*term.Term, len(vars))
	for _, v := range vars {
		byID["v"+strconv.Itoa(int(v.ID))] = v
	}
	depth := 0
	var tok []byte
	var toks []string
	flush := func() {
		if len(tok) > 0 {
			toks = append(toks, string(tok))
			tok = tok[:0]
		}
	}
	for {
		c, err := r.ReadByte()
		if err != nil {
			return err
		}
		switch c {
		case '(':
			flush()
			depth++
		case ')':
			flush()
			depth--
			if len(toks) == 2 {
				v := byID[toks[0]]
				if v == nil {
					return fmt.Errorf("unexpected model entry %v", toks)
				}
				x, err := parseVal(toks[1])
				if err != nil {
					return err
				}
				model[v.Name] = x
			} else if len(toks) != 0 {
				return fmt.Errorf("unexpected solver output %v", toks)
			}
			toks = toks[:0]
			if depth == 0 {
				r.ReadString('\n')
				return nil
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			tok = append(tok, c)
		}
	}
}

func parseVal(s string) (uint64, error) {
	switch {
	case s == "true":
		return 1, nil
	case s == "false":
		return 0, nil
	case strings.HasPrefix(s, "#x"):
		return strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "#b"):
		return strconv.ParseUint(s[2:], 2, 64)
	}
	return 0, fmt.Errorf("bad value %q", s)
}

// Script renders the whole query as a stand-alone SMT-LIB2 script.
func Script(pc []*term.Term, extra *term.Term) (string, []*term.Term) {
	var b strings.Builder
	defined := map[int32]bool{}
	var vars []*term.Term
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	all := pc
	if extra != nil {
		all = append(append([]*term.Term{}, pc...), extra)
	}
	for _, c := range all {
		define(&b, c, defined, &vars)
		b.WriteString("(assert ")
		ref(&b, c)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String(), vars
}

// OneShot decides the query in a fresh process (non-incremental strategies).
func (s *Solver) OneShot(path string, pc []*term.Term, extra *term.Term, ms int) (Result, map[string]uint64) {
	script, vars := Script(pc, extra)
	var args []string
	if strings.Contains(path, "cvc5") {
		args = []string{"--lang=smt2", "--tlimit=" + strconv.Itoa(ms), "-"}
	} else {
		args = []string{"-in", "-smt2", "-t:" + strconv.Itoa(ms)}
	}
	cmd := exec.Command(path, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return Unknown, nil
	}
	so, err := cmd.StdoutPipe()
	if err != nil {
		return Unknown, nil
	}
	if cmd.Start() != nil {
		return Unknown, nil
	}
	timer := time.AfterFunc(time.Duration(ms+5000)*time.Millisecond, func() { cmd.Process.Kill() })
	defer func() { timer.Stop(); in.Close(); cmd.Process.Kill(); cmd.Wait() }()
	go func() { io.WriteString(in, script) }()
	out := bufio.NewReader(so)
	line, err := out.ReadString('\n')
	if err != nil {
		return Unknown, nil
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := map[string]uint64{}
		if len(vars) > 0 {
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vars {
				ref(&b, v)
				b.WriteByte(' ')
			}
			b.WriteString("))\n")
			io.WriteString(in, b.String())
			if err := readModel(out, vars, m); err != nil {
				return Unknown, nil
			}
		}
		return Sat, m
	}
	s.LastErr = strings.TrimSpace(line)
	return Unknown, nil
}
