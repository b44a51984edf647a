package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v  value // interface value
	tr string
}

type deferred struct {
	fn   value
	args []value
	next *deferred
}

type frame struct {
	p         *path
	th        *thread
	caller    *frame
	code      *code
	regs      []value
	defers    *deferred
	result    value
	panic_    *targetPanic // active panic while running deferred calls
	recovered bool
	depth     int
	prev      int
	line      token.Pos
}

type opnd struct {
	r int32 // register, or -1
	v value
	g *ssa.Global
}

func (o *opnd) get(fr *frame) value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.g != nil {
		return fr.p.global(o.g)
	}
	return o.v
}

type instr func(fr *frame)

type phi struct {
	dst   int32
	edges []opnd
}

type block struct {
	phis  []phi
	ins   []instr
	pos   []token.Pos
	term  func(fr *frame) int
	preds map[int]int
}

// code is a compiled function or an intrinsic.
type code struct {
	fn     *ssa.Function
	name   string
	intr   func(fr *frame, args []value) value
	blocks []*block
	nregs  int
	np     int
	hasDef bool
	recov  int
	tmp    []phi
	inRepo bool
}

// codeFor returns the executable form of fn.
func (e *Engine) codeFor(fn *ssa.Function) *code {
	if c, ok := e.codes.Load(fn); ok {
		return c.(*code)
	}
	c := e.makeCode(fn)
	x, _ := e.codes.LoadOrStore(fn, c)
	return x.(*code)
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func pkgOf(fn *ssa.Function) string {
	if p := origin(fn).Pkg; p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if par := fn.Parent(); par != nil {
		return pkgOf(par)
	}
	return ""
}

func (e *Engine) makeCode(fn *ssa.Function) *code {
	name := origin(fn).String()
	c := &code{fn: fn, name: name}
	pk := pkgOf(fn)
	c.inRepo = pk == Mod || strings.HasPrefix(pk, Mod+"/") && !strings.HasPrefix(pk, HarnessRoot)
	if r, ok := e.redir[name]; ok && r != fn {
		rc := e.codeFor(r)
		c.intr = func(fr *frame, args []value) value {
			return callCode(fr, fr.th, rc, args, nil)
		}
		return c
	}
	if f, ok := intrinsics[name]; ok && !e.Cfg.NoIntr[name] {
		c.intr = f
		return c
	}
	if f := e.patternIntrinsic(fn, name, pk); f != nil {
		c.intr = f
		return c
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		c.intr = func(fr *frame, args []value) value {
			fr.p.unsupported("call of %s (no body and no model)", name)
			return nil
		}
		return c
	}
	e.compile(c)
	return c
}

func callFn(caller *frame, th *thread, fv value, args []value, _ interface{}) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			if caller != nil {
				caller.rtPanic("invalid memory address or nil pointer dereference")
			}
			panic("nil function")
		}
		return callCode(caller, th, th.p.e.codeFor(f), args, nil)
	case *closure:
		return callCode(caller, th, th.p.e.codeFor(f.fn), args, f.env)
	case *nativeFn:
		fr := caller
		if fr == nil {
			fr = &frame{p: th.p, th: th}
		}
		return f.f(fr, args)
	case *ssa.Builtin:
		th.p.unsupported("builtin %s as a value", f.Name())
	}
	panic(fmt.Sprintf("call of %T", fv))
}

func callCode(caller *frame, th *thread, c *code, args []value, env []value) value {
	p := th.p
	if p.w != nil && !p.w.funcs[c] {
		p.w.funcs[c] = true
	}
	if c.intr != nil {
		fr := caller
		if fr == nil {
			fr = &frame{p: p, th: th}
		}
		return c.intr(fr, args)
	}
	fr := &frame{p: p, th: th, caller: caller, code: c, regs: make([]value, c.nregs)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > p.e.Cfg.MaxDepth {
			if p.e.Cfg.DepthFatal {
				p.violation("unbounded recursion exhausts the stack", p.model)
			}
			p.abort(Limit, "call depth over %d in %s", p.e.Cfg.MaxDepth, c.name)
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[c.np:], env)
	th.fr = fr
	if c.hasDef {
		fr.runWithDefers()
	} else {
		fr.exec(0)
	}
	th.fr = caller
	return fr.result
}

func (fr *frame) exec(b int) {
	c := fr.code
	p := fr.p
	prev := fr.prev
	for {
		blk := c.blocks[b]
		p.steps += int64(len(blk.ins)) + 1
		if p.steps > p.maxStep {
			p.violationContinue(NoEnd, p.model)
			p.abort(Limit, "more than %d steps on one path (in %s)", p.maxStep, c.name)
		}
		if len(blk.phis) > 0 {
			e := blk.preds[prev]
			if len(blk.phis) == 1 {
				ph := &blk.phis[0]
				fr.regs[ph.dst] = ph.edges[e].get(fr)
			} else {
				var buf [8]value
				tmp := buf[:0]
				for i := range blk.phis {
					tmp = append(tmp, blk.phis[i].edges[e].get(fr))
				}
				for i := range blk.phis {
					fr.regs[blk.phis[i].dst] = tmp[i]
				}
			}
		}
		for i, ins := range blk.ins {
			fr.line = blk.pos[i]
			ins(fr)
		}
		n := blk.term(fr)
		if n < 0 {
			return
		}
		prev = b
		fr.prev = b
		b = n
	}
}

// runWithDefers executes a function that defers, with recover semantics.
func (fr *frame) runWithDefers() {
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panic_ = tp
			}
		}()
		fr.exec(0)
	}()
	if fr.panic_ == nil {
		return
	}
	fr.th.fr = fr
	fr.runDefers()
	if fr.panic_ != nil {
		panic(fr.panic_)
	}
	// recovered
	if fr.code.recov >= 0 {
		fr.exec(fr.code.recov)
	} else {
		fr.result = zeroResults(fr.code.fn.Signature)
	}
}

func zeroResults(s *types.Signature) value {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(s.Results().At(0).Type())
	}
	return zero(s.Results())
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panic_ = tp
				}
			}()
			fr.callDeferred(d)
		}()
	}
}

func (fr *frame) callDeferred(d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		fr.builtin(b, nil, d.args, nil)
		return
	}
	callFn(fr, fr.th, d.fn, d.args, nil)
}

// doRecover implements recover() called from a function deferred by fr.caller.
func (fr *frame) doRecover() value {
	// fr is the deferred function's frame; its caller is the panicking frame
	c := fr.caller
	if c != nil && c.panic_ != nil {
		v := c.panic_.v
		c.panic_ = nil
		return v
	}
	return iface{}
}

func (fr *frame) rtPanic(msg string) {
	p := fr.p
	panic(&targetPanic{v: iface{p.e.lookupType("runtime", "errorString"), msg}, tr: fr.where()})
}

func (fr *frame) where() string {
	var b []string
	for f := fr; f != nil && len(b) < 12; f = f.caller {
		if f.code == nil || f.code.fn == nil {
			continue
		}
		pos := f.p.e.Prog.Fset.Position(f.line)
		b = append(b, fmt.Sprintf("%s (%s:%d)", f.code.name, short(pos.Filename), pos.Line))
	}
	return strings.Join(b, " < ")
}

func short(s string) string {
	s = strings.TrimPrefix(s, "/repo/")
	if i := strings.Index(s, "/pkg/mod/"); i >= 0 {
		s = s[i+9:]
	}
	return s
}

// runtimeError builds an error value whose Error() is msg.
func (p *path) runtimeError(msg string) value {
	t := p.e.lookupType("errors", "errorString")
	c := new(value)
	*c = structure{msg}
	return iface{types.NewPointer(t), c}
}

func (p *path) mkError(msg value) value {
	t := p.e.lookupType("errors", "errorString")
	c := new(value)
	*c = structure{msg}
	return iface{p.e.ptrTo(t), c}
}

func (e *Engine) ptrTo(t types.Type) types.Type {
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	k := "*" + typeName(t)
	if x, ok := e.named[k]; ok {
		return x
	}
	x := types.NewPointer(t)
	e.named[k] = x
	return x
}

func (e *Engine) lookupType(pkg, name string) types.Type {
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	k := pkg + "." + name
	if t, ok := e.named[k]; ok {
		return t
	}
	p := e.ld.Pkgs[pkg]
	if p == nil {
		panic("package not loaded: " + pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic("no type " + k)
	}
	e.named[k] = o.Type()
	return o.Type()
}

// global returns the address cell of g, initialising its package first.
func (p *path) global(g *ssa.Global) value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	pkg := g.Pkg
	if p.inited[pkg] == 0 && g.Name() != "init$guard" {
		p.initPackage(pkg)
		if c, ok := p.globals[g]; ok {
			return c
		}
	}
	c := new(value)
	*c = zero(g.Type().(*types.Pointer).Elem())
	p.globals[g] = c
	return c
}

var skipInit = map[string]bool{
	"errors": true, "internal/reflectlite": true,
	"os": true, "syscall": true, "runtime": true, "net": true, "net/http": true, "reflect": true, "unicode": true,
	"log": true, "testing": true, "internal/poll": true, "internal/godebug": true, "time": true, "crypto/tls": true,
	"go.uber.org/zap": true, "github.com/gogo/protobuf/proto": true, "sync": true, "math/rand": true,
	"github.com/golang/protobuf/proto": true, "internal/testlog": true, "encoding/json": true,
	"go.mongodb.org/mongo-driver/bson": true, "flag": true, "internal/cpu": true,
	"github.com/dgraph-io/badger": false,
}

func (p *path) initPackage(pkg *ssa.Package) {
	p.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "go.uber.org/zap") {
		p.initSpecial(pkg)
		return
	}
	pkg.Build()
	init := pkg.Func("init")
	if init == nil {
		return
	}
	fr := &frame{p: p, th: p.cur}
	save := p.cur.fr
	// initialisation precedes everything
	inter, races := p.interleave, p.races
	p.interleave, p.races = false, nil
	defer func() { p.interleave, p.races = inter, races }()
	func() {
		defer func() {
			// library initialisers outside the repository may use what the engine
			// does not model; their remaining globals stay zero
			if r := recover(); r != nil {
				pe, ok := r.(*pathEnd)
				if !ok || pe.out != Unsupported || strings.HasPrefix(path, Mod) {
					panic(r)
				}
				p.note("initialiser of " + path + " not fully modelled: " + pe.msg)
			}
		}()
		callCode(fr, p.cur, p.e.codeFor(init), nil, nil)
	}()
	p.cur.fr = save
	p.inited[pkg] = 2
}

// ---- compilation

func (e *Engine) compile(c *code) {
	fn := c.fn
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, q := range fn.Params {
		add(q)
	}
	c.np = len(fn.Params)
	for _, q := range fn.FreeVars {
		add(q)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = int(n)
	cc := &compiler{e: e, c: c, regs: regs}
	c.recov = -1
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		c.blocks = append(c.blocks, cc.block(b))
	}
}

type compiler struct {
	e    *Engine
	c    *code
	regs map[ssa.Value]int32
}

func (cc *compiler) op(v ssa.Value) opnd {
	if r, ok := cc.regs[v]; ok {
		return opnd{r: r}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, v: constVal(v)}
	case *ssa.Global:
		return opnd{r: -1, g: v}
	case *ssa.Function:
		return opnd{r: -1, v: v}
	case *ssa.Builtin:
		return opnd{r: -1, v: v}
	}
	panic(fmt.Sprintf("operand %T", v))
}

func (cc *compiler) ops(vs []ssa.Value) []opnd {
	o := make([]opnd, len(vs))
	for i, v := range vs {
		o[i] = cc.op(v)
	}
	return o
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := under(c.Type())
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		panic("const of interface type")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	}
	k, _ := intKind(t)
	if k.signed {
		return uint64(c.Int64()) & term.Mask(k.w)
	}
	return c.Uint64() & term.Mask(k.w)
}

func (cc *compiler) block(b *ssa.BasicBlock) *block {
	out := &block{preds: map[int]int{}}
	for i, q := range b.Preds {
		out.preds[q.Index] = i
	}
	for _, ins := range b.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			out.phis = append(out.phis, phi{cc.regs[ph], cc.ops(ph.Edges)})
			continue
		}
		switch ins := ins.(type) {
		case *ssa.If:
			cond := cc.op(ins.Cond)
			s0, s1 := b.Succs[0].Index, b.Succs[1].Index
			pos := ins.Cond.Pos()
			out.term = func(fr *frame) int {
				v := cond.get(fr)
				if bv, ok := v.(bool); ok {
					if bv {
						return s0
					}
					return s1
				}
				if pos.IsValid() {
					fr.line = pos
				}
				if fr.p.branch(v) {
					return s0
				}
				return s1
			}
			continue
		case *ssa.Jump:
			s0 := b.Succs[0].Index
			out.term = func(fr *frame) int { return s0 }
			continue
		case *ssa.Return:
			rs := cc.ops(ins.Results)
			switch len(rs) {
			case 0:
				out.term = func(fr *frame) int { return -1 }
			case 1:
				out.term = func(fr *frame) int { fr.result = rs[0].get(fr); return -1 }
			default:
				out.term = func(fr *frame) int {
					t := make(tuple, len(rs))
					for i := range rs {
						t[i] = rs[i].get(fr)
					}
					fr.result = t
					return -1
				}
			}
			continue
		case *ssa.Panic:
			x := cc.op(ins.X)
			out.term = func(fr *frame) int {
				v := x.get(fr)
				if i, ok := v.(iface); ok && i.t == nil {
					v = fr.p.runtimeError("panic called with nil argument")
				}
				panic(&targetPanic{v: v, tr: fr.where()})
			}
			continue
		case *ssa.DebugRef:
			continue
		}
		if f := cc.instr(ins); f != nil {
			out.ins = append(out.ins, f)
			out.pos = append(out.pos, ins.Pos())
		}
	}
	if out.term == nil {
		out.term = func(fr *frame) int { panic("block without terminator") }
	}
	return out
}

func (cc *compiler) instr(ins ssa.Instruction) instr {
	var dst int32 = -1
	if v, ok := ins.(ssa.Value); ok {
		dst = cc.regs[v]
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(value)
			*p = zero(t)
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		x, y := cc.op(ins.X), cc.op(ins.Y)
		op, t, yt := ins.Op, ins.X.Type(), ins.Y.Type()
		if k, ok := intKind(t); ok && !k.float && k.w == 64 {
			switch op {
			case token.ADD:
				return func(fr *frame) {
					a, b := x.get(fr), y.get(fr)
					if ac, ok := a.(uint64); ok {
						if bc, ok := b.(uint64); ok {
							fr.regs[dst] = ac + bc
							return
						}
					}
					fr.regs[dst] = fr.binop(op, t, yt, a, b)
				}
			case token.LSS:
				if k.signed {
					return func(fr *frame) {
						a, b := x.get(fr), y.get(fr)
						if ac, ok := a.(uint64); ok {
							if bc, ok := b.(uint64); ok {
								fr.regs[dst] = int64(ac) < int64(bc)
								return
							}
						}
						fr.regs[dst] = fr.binop(op, t, yt, a, b)
					}
				}
			}
		}
		return func(fr *frame) { fr.regs[dst] = fr.binop(op, t, yt, x.get(fr), y.get(fr)) }
	case *ssa.UnOp:
		x := cc.op(ins.X)
		switch ins.Op {
		case token.MUL:
			t := ins.Type()
			return func(fr *frame) { fr.regs[dst] = fr.load(t, x.get(fr)) }
		case token.ARROW:
			commaOk := ins.CommaOk
			et := under(ins.X.Type()).(*types.Chan).Elem()
			return func(fr *frame) {
				v, ok := fr.recv(x.get(fr).(*channel))
				if !ok {
					v = zero(et)
				}
				if commaOk {
					fr.regs[dst] = tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		op, t := ins.Op, ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = fr.unop(op, t, x.get(fr)) }
	case *ssa.Call:
		call := cc.call(&ins.Call)
		return func(fr *frame) { fr.regs[dst] = call(fr) }
	case *ssa.ChangeInterface:
		x := cc.op(ins.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := cc.op(ins.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		x := cc.op(ins.X)
		d, s := ins.Type(), ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = fr.convert(d, s, x.get(fr)) }
	case *ssa.MultiConvert:
		x := cc.op(ins.X)
		d, s := ins.Type(), ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = fr.convert(d, s, x.get(fr)) }
	case *ssa.SliceToArrayPointer:
		x := cc.op(ins.X)
		n := int(under(under(ins.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).([]value)
			if len(s) < n {
				fr.rtPanic("cannot convert slice to array pointer: too short")
			}
			c := new(value)
			*c = array(s[:n:n])
			fr.regs[dst] = c
		}
	case *ssa.Extract:
		x := cc.op(ins.Tuple)
		i := ins.Index
		return func(fr *frame) { fr.regs[dst] = x.get(fr).(tuple)[i] }
	case *ssa.Field:
		x := cc.op(ins.X)
		i := ins.Field
		return func(fr *frame) { fr.regs[dst] = copyVal(x.get(fr).(structure)[i]) }
	case *ssa.FieldAddr:
		x := cc.op(ins.X)
		i := ins.Field
		return func(fr *frame) {
			switch a := x.get(fr).(type) {
			case *value:
				if a == nil {
					fr.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*a).(structure)
				if !ok {
					fr.p.unsupported("field address of %T", *a)
				}
				fr.regs[dst] = &s[i]
			case *symptr:
				j := fr.p.concretize(a.idx, "index")
				fr.regs[dst] = &a.base[j].(structure)[i]
			default:
				fr.p.unsupported("fieldaddr on %T", a)
			}
		}
	case *ssa.Index:
		x, i := cc.op(ins.X), cc.op(ins.Index)
		it := ins.Index.Type()
		et := ins.Type()
		return func(fr *frame) {
			switch s := x.get(fr).(type) {
			case array:
				j, sm := fr.checkIndex(i.get(fr), it, len(s))
				if sm != nil {
					fr.regs[dst] = fr.load(et, &symptr{s, sm})
					return
				}
				fr.regs[dst] = copyVal(s[j])
			case string:
				j, sm := fr.checkIndex(i.get(fr), it, len(s))
				if sm != nil {
					fr.regs[dst] = fr.load(et, &symptr{strBytes(s), sm})
					return
				}
				fr.regs[dst] = uint64(s[j])
			case *symstr:
				j, sm := fr.checkIndex(i.get(fr), it, len(s.b))
				if sm != nil {
					fr.regs[dst] = fr.load(et, &symptr{s.b, sm})
					return
				}
				fr.regs[dst] = s.b[j]
			default:
				fr.p.unsupported("index of %T", s)
			}
		}
	case *ssa.IndexAddr:
		x, i := cc.op(ins.X), cc.op(ins.Index)
		xt, it := ins.X.Type(), ins.Index.Type()
		return func(fr *frame) {
			xv, iv := x.get(fr), i.get(fr)
			if s, ok := xv.([]value); ok {
				if c, ok := iv.(uint64); ok && c < uint64(len(s)) {
					fr.regs[dst] = &s[c]
					return
				}
			}
			fr.regs[dst] = fr.indexAddr(xv, xt, iv, it)
		}
	case *ssa.Lookup:
		x, i := cc.op(ins.X), cc.op(ins.Index)
		commaOk := ins.CommaOk
		mt, isMap := under(ins.X.Type()).(*types.Map)
		it := ins.Index.Type()
		et := ins.Type()
		return func(fr *frame) {
			if !isMap {
				s := x.get(fr)
				j, sm := fr.checkIndex(i.get(fr), it, strLen(s))
				if sm != nil {
					fr.regs[dst] = fr.load(et, &symptr{strBytes(s), sm})
					return
				}
				if cs, ok := s.(string); ok {
					fr.regs[dst] = uint64(cs[j])
					return
				}
				fr.regs[dst] = s.(*symstr).b[j]
				return
			}
			m := x.get(fr).(*mapv)
			fr.checkKey(mt.Key(), i.get(fr))
			if m != nil {
				fr.touch(m, false)
			}
			j := fr.p.mapFind(m, i.get(fr))
			var v value
			if j >= 0 {
				v = copyVal(m.vals[j])
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.regs[dst] = tuple{v, j >= 0}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(ins.Map), cc.op(ins.Key), cc.op(ins.Value)
		kt := under(ins.Map.Type()).(*types.Map).Key()
		return func(fr *frame) {
			mv := m.get(fr).(*mapv)
			if mv == nil {
				panic(&targetPanic{v: fr.p.runtimeError("assignment to entry in nil map"), tr: fr.where()})
			}
			fr.checkKey(kt, k.get(fr))
			fr.touch(mv, true)
			fr.p.mapSet(mv, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		kt := under(ins.Type()).(*types.Map).Key()
		return func(fr *frame) { fr.regs[dst] = newMap(kt) }
	case *ssa.MakeChan:
		sz := cc.op(ins.Size)
		t := ins.Size.Type()
		return func(fr *frame) { fr.regs[dst] = &channel{cap: int(fr.toInt(sz.get(fr), t, "channel size"))} }
	case *ssa.MakeClosure:
		fnv := ins.Fn.(*ssa.Function)
		bs := cc.ops(ins.Bindings)
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &closure{fnv, env}
		}
	case *ssa.MakeInterface:
		x := cc.op(ins.X)
		t := ins.X.Type()
		return func(fr *frame) { fr.regs[dst] = iface{t, x.get(fr)} }
	case *ssa.MakeSlice:
		l, cp := cc.op(ins.Len), cc.op(ins.Cap)
		lt, ct := ins.Len.Type(), ins.Cap.Type()
		et := under(ins.Type()).(*types.Slice).Elem()
		return func(fr *frame) {
			lv, cv := l.get(fr), cp.get(fr)
			check := func(v value, t types.Type, what string) {
				if s, ok := v.(*term.Term); ok {
					k, _ := intKind(t)
					var c *term.Term
					if k.signed {
						c = fr.p.tab.SExt(s, 64)
					} else {
						c = fr.p.tab.ZExt(s, 64)
					}
					if !fr.p.branch(V(fr.p.tab.Ule(c, fr.p.tab.Const(64, 1<<20)))) {
						if fr.p.branch(V(fr.p.tab.Slt(c, fr.p.tab.Const(64, 0)))) {
							fr.rtPanic("makeslice: " + what + " out of range")
						}
						fr.p.abort(Limit, "allocation of more than 2^20 elements")
					}
				}
			}
			check(lv, lt, "len")
			n := fr.toInt(lv, lt, "make length")
			check(cv, ct, "cap")
			k := fr.toInt(cv, ct, "make capacity")
			if n < 0 || n > 1<<40 {
				fr.rtPanic("makeslice: len out of range")
			}
			if k < n || k > 1<<40 {
				fr.rtPanic("makeslice: cap out of range")
			}
			if k > 1<<22 {
				fr.p.abort(Limit, "allocation of %d elements", k)
			}
			s := make([]value, k)
			fill(s, et)
			fr.regs[dst] = s[:n]
		}
	case *ssa.Slice:
		x := cc.op(ins.X)
		var lo, hi, mx *opnd
		mk := func(v ssa.Value) *opnd {
			if v == nil {
				return nil
			}
			o := cc.op(v)
			return &o
		}
		lo, hi, mx = mk(ins.Low), mk(ins.High), mk(ins.Max)
		g := func(fr *frame, o *opnd) value {
			if o == nil {
				return nil
			}
			return o.get(fr)
		}
		return func(fr *frame) {
			fr.regs[dst] = fr.slice(ins, x.get(fr), g(fr, lo), g(fr, hi), g(fr, mx))
		}
	case *ssa.Store:
		a, v := cc.op(ins.Addr), cc.op(ins.Val)
		t := ins.Val.Type()
		return func(fr *frame) { fr.store(t, a.get(fr), v.get(fr)) }
	case *ssa.TypeAssert:
		x := cc.op(ins.X)
		at := ins.AssertedType
		it, isI := under(at).(*types.Interface)
		commaOk := ins.CommaOk
		return func(fr *frame) {
			xi, okk := x.get(fr).(iface)
			if !okk {
				fr.p.unsupported("type assertion on %T", x.get(fr))
			}
			ok := false
			var v value
			if xi.t != nil {
				if isI {
					ok = fr.p.e.implements(xi.t, it)
					v = xi
				} else {
					ok = identical(xi.t, at)
					v = xi.v
				}
			}
			if !ok {
				if !commaOk {
					d := "nil"
					if xi.t != nil {
						d = typeName(xi.t)
					}
					fr.rtPanic("interface conversion: interface is " + d + ", not " + typeName(at))
				}
				v = zero(at)
			}
			if commaOk {
				fr.regs[dst] = tuple{copyVal(v), ok}
			} else {
				fr.regs[dst] = copyVal(v)
			}
		}
	case *ssa.Range:
		x := cc.op(ins.X)
		_, isMap := under(ins.X.Type()).(*types.Map)
		return func(fr *frame) {
			if isMap {
				m := x.get(fr).(*mapv)
				fr.regs[dst] = &mapIter{m: m, todo: m.liveIdx()}
			} else {
				fr.regs[dst] = &strIter{s: x.get(fr)}
			}
		}
	case *ssa.Next:
		x := cc.op(ins.Iter)
		isStr := ins.IsString
		return func(fr *frame) { fr.regs[dst] = fr.next(x.get(fr), isStr) }
	case *ssa.Defer:
		cc.c.hasDef = true
		if ins.DeferStack != nil {
			return func(fr *frame) { fr.p.unsupported("defer in range-over-func") }
		}
		prep := cc.prepCall(&ins.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = &deferred{fn, args, fr.defers}
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.runDefers()
			if fr.panic_ != nil {
				tp := fr.panic_
				panic(tp)
			}
		}
	case *ssa.Go:
		prep := cc.prepCall(&ins.Call)
		return func(fr *frame) {
			fn, args := prep(fr)
			fr.p.spawn(fr, fn, args)
		}
	case *ssa.Send:
		ch, v := cc.op(ins.Chan), cc.op(ins.X)
		return func(fr *frame) { fr.send(ch.get(fr).(*channel), copyVal(v.get(fr))) }
	case *ssa.Select:
		return cc.sel(ins, dst)
	}
	panic(fmt.Sprintf("instruction %T", ins))
}

func fill(s []value, et types.Type) {
	switch under(et).(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
}

func (fr *frame) checkKey(kt types.Type, k value) {
	if _, ok := under(kt).(*types.Interface); ok {
		if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
			fr.rtPanic("hash of unhashable type " + typeName(i.t))
		}
	}
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t types.Type
		i *types.Interface
	}
	k := key{t, it}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	b := types.Implements(t, it)
	e.impls.Store(k, b)
	return b
}

// method finds the implementation of m for dynamic type t.
func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if v, ok := e.meths.Load(k); ok {
		return v.(*ssa.Function)
	}
	f := e.Prog.LookupMethod(t, m.Pkg(), m.Name())
	e.meths.Store(k, f)
	return f
}

// prepCall resolves the callee and evaluates arguments.
func (cc *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) (value, []value) {
	args := cc.ops(c.Args)
	if c.IsInvoke() {
		x := cc.op(c.Value)
		m := c.Method
		return func(fr *frame) (value, []value) {
			xi, ok := x.get(fr).(iface)
			if !ok {
				fr.p.unsupported("invoke %s on %T", m.Name(), x.get(fr))
			}
			if xi.t == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			if o, ok := xi.v.(*opaque); ok {
				as := make([]value, len(args)+1)
				as[0] = xi.v
				for i := range args {
					as[i+1] = args[i].get(fr)
				}
				return &nativeFn{m.Name(), func(fr *frame, a []value) value { return fr.opaqueCall(o, m.Name(), a) }}, as
			}
			f := fr.p.e.method(xi.t, m)
			if f == nil {
				fr.p.unsupported("no method %s on %s", m.Name(), xi.t)
			}
			as := make([]value, len(args)+1)
			as[0] = copyVal(xi.v)
			for i := range args {
				as[i+1] = args[i].get(fr)
			}
			return f, as
		}
	}
	f := cc.op(c.Value)
	return func(fr *frame) (value, []value) {
		as := make([]value, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		return f.get(fr), as
	}
}

func (cc *compiler) call(c *ssa.CallCommon) func(fr *frame) value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := cc.ops(c.Args)
		return func(fr *frame) value {
			as := make([]value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			return fr.builtin(b, c, as, nil)
		}
	}
	if fn, ok := c.Value.(*ssa.Function); ok && !c.IsInvoke() {
		if fn.Synthetic == "package initializer" { // packages are initialised on first use
			return func(fr *frame) value { return nil }
		}
		args := cc.ops(c.Args)
		e := cc.e
		var cached *code
		return func(fr *frame) value {
			as := make([]value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			c := cached
			if c == nil {
				c = e.codeFor(fn) // idempotent; racing writers store the same pointer
				cached = c
			}
			return callCode(fr, fr.th, c, as, nil)
		}
	}
	prep := cc.prepCall(c)
	return func(fr *frame) value {
		fn, as := prep(fr)
		return callFn(fr, fr.th, fn, as, nil)
	}
}

// ---- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need int, es int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if es <= 0 {
		return nc
	}
	bytes := nc * es
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return c / es
			}
		}
	}
	pages := (bytes + 8191) / 8192
	return pages * 8192 / es
}

func (p *path) appendVals(x, y []value, et types.Type) []value {
	if len(y) == 0 {
		return x
	}
	n := len(x) + len(y)
	if n <= cap(x) {
		r := x[:n]
		if _, agg := y[0].(structure); agg {
			// values may alias the destination: copy first
			tmp := make([]value, len(y))
			for i := range y {
				tmp[i] = copyVal(y[i])
			}
			for i := range tmp {
				r[len(x)+i] = tmp[i]
			}
			return r
		}
		tmp := append([]value(nil), y...)
		for i := range tmp {
			r[len(x)+i] = copyVal(tmp[i])
		}
		return r
	}
	es := 8
	if et != nil {
		es = int(sizes.Sizeof(et))
	}
	c := growCap(cap(x), n, es)
	if c < n {
		c = n
	}
	r := make([]value, n, c)
	for i, v := range x {
		// cells move; aggregates are copied so that old pointers stay with the old array
		r[i] = copyVal(v)
	}
	for i, v := range y {
		r[len(x)+i] = copyVal(v)
	}
	if c > n && et != nil {
		fill(r[n:c], et)
	}
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func (fr *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []value, _ interface{}) value {
	p := fr.p
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symstr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *mapv:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *channel:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case wordslice:
			return uint64(len(x.b))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *channel:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var y []value
		switch a := args[1].(type) {
		case []value:
			y = a
		case string, *symstr:
			y = strBytes(a)
		default:
			p.unsupported("append of %T", a)
		}
		var et types.Type
		if c != nil {
			if s, ok := under(c.Args[0].Type()).(*types.Slice); ok {
				et = s.Elem()
			}
		}
		if old := args[0].([]value); p.races != nil {
			if _, cells := args[1].([]value); cells {
				for i := range y {
					fr.touchCell(&y[i], false)
				}
			}
			if len(old)+len(y) <= cap(old) {
				for i := range y {
					fr.touch(&old[:cap(old)][len(old)+i], true)
				}
			} else {
				for i := range old {
					fr.touchCell(&old[i], false)
				}
			}
		}
		return p.appendVals(args[0].([]value), y, et)
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch a := args[1].(type) {
		case []value:
			src = a
		case string, *symstr:
			src = strBytes(a)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if p.races != nil {
			_, cells := args[1].([]value)
			for i := 0; i < n; i++ {
				if cells {
					fr.touchCell(&src[i], false)
				}
				fr.touchCell(&dst[i], true)
			}
		}
		if n > 0 {
			if _, agg := src[0].(structure); agg {
				tmp := make([]value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					storeInto(&dst[i], tmp[i])
				}
			} else {
				copy(dst[:n], src[:n])
			}
		}
		return uint64(n)
	case "delete":
		if m := args[0].(*mapv); m != nil {
			fr.touch(m, true)
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				kt := x.kt
				*x = *newMap(kt)
			}
		case []value:
			et := under(c.Args[0].Type()).(*types.Slice).Elem()
			fill(x, et)
		}
		return nil
	case "close":
		fr.closeChan(args[0].(*channel))
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], tr: fr.where()})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		t := c.Args[0].Type()
		acc := args[0]
		for i := 1; i < len(args); i++ {
			var less value
			if b.Name() == "min" {
				less = fr.binop(token.LSS, t, t, args[i], acc)
			} else {
				less = fr.binop(token.LSS, t, t, acc, args[i])
			}
			if p.branch(less) {
				acc = args[i]
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(fr.toInt(args[1], types.Typ[types.Int], "unsafe.String"))
		return mkStr(fr.unsafeRun(args[0], n))
	case "Slice":
		n := int(fr.toInt(args[1], types.Typ[types.Int], "unsafe.Slice"))
		return fr.unsafeRun(args[0], n)
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &sliceData{s[:cap(s)]}
	case "StringData":
		return &sliceData{strBytes(args[0])}
	}
	p.unsupported("builtin %s", b.Name())
	return nil
}

// sliceData is the pointer to the first element of a run.
type sliceData struct{ b []value }

func (fr *frame) unsafeRun(x value, n int) []value {
	switch x := x.(type) {
	case *sliceData:
		return x.b[:n:n]
	case *value:
		if n == 0 {
			return []value{}
		}
	}
	fr.p.unsupported("unsafe slice from %T", x)
	return nil
}
