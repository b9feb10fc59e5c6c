package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions

type operand struct {
	reg int // >=0 register
	v   Value
	g   *ssa.Global
	c   *ssa.Const
}

type cinstr struct {
	in   ssa.Instruction
	dst  int
	ops  []operand
	call *callInfo
}

type callInfo struct {
	method *types.Func
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	params []int
	frees  []int
	blocks [][]cinstr
	pred   []map[int]int // block -> pred block index -> edge number
	merge  []*mergeInfo
	name   string
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	ensureBuilt(fn)
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fn.String()))
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	in.fns[fn] = fi
	idx := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		n := len(idx)
		idx[v] = n
		return n
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, add(p))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = len(idx)
	mk := func(v ssa.Value) operand {
		if v == nil {
			return operand{reg: -1}
		}
		if r, ok := idx[v]; ok {
			return operand{reg: r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return operand{reg: -1, v: in.constVal2(v)}
		case *ssa.Global:
			return operand{reg: -1, g: v}
		case *ssa.Function:
			return operand{reg: -1, v: in.fnVal(v)}
		case *ssa.Builtin:
			return operand{reg: -1, v: &Closure{bi: v}}
		}
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	fi.pred = make([]map[int]int, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		fi.pred[bi] = map[int]int{}
		for e, p := range b.Preds {
			fi.pred[bi][p.Index] = e
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			var rands [10]*ssa.Value
			for _, r := range i.Operands(rands[:0]) {
				ci.ops = append(ci.ops, mk(*r))
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				ci.call = in.callInfoOf(c.Common())
			}
			fi.blocks[bi] = append(fi.blocks[bi], ci)
		}
	}
	fi.merge = make([]*mergeInfo, len(fn.Blocks))
	in.findMerges(fi)
	return fi
}

func (in *Interp) constVal2(c *ssa.Const) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return in.constVal(c)
}

func (in *Interp) fnVal(fn *ssa.Function) *Closure {
	if c, ok := in.fnClosures[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	in.fnClosures[fn] = c
	return c
}

func (in *Interp) callInfoOf(c *ssa.CallCommon) *callInfo {
	ci := &callInfo{}
	if c.IsInvoke() {
		ci.method = c.Method
		return ci
	}
	return ci
}

// ---- frames and goroutines

type deferred struct {
	fn   *Closure
	args []Value
	fi   types.Type
}

type panicVal struct {
	v         Iface
	msg       string
	where     string
	recovered bool
	exit      bool // runtime.Goexit
}

type Frame struct {
	fi      *fnInfo
	regs    []Value
	block   int
	prev    int
	pc      int
	defers  []deferred
	pan     *panicVal
	isDefer bool // called by the defer mechanism of the frame below
	running bool // executing deferred calls
	result  Value
	dst     int // register of the caller receiving the result
	steps   map[int]int
	onRet   func(in *Interp, g *Gor, ret Value) // host continuation
	atomic  bool
}

type Gor struct {
	id     int
	frames []*Frame
	done   bool
	parked bool
	pend   *pendOp
	grant  bool
	vc     []int
	name   string
	recvV  Value // handed over by a channel counterpart
	recvOK bool
	selIdx int
	woken  bool
	atomic int
	wrap   *deferred
	crash  int // depth of the crash scope, 0 if none
}

type pathEnd struct {
	kind string // ok, assume, violation, incomplete, unsupported
	msg  string
}

type unsupportedErr struct{ msg string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }

// ---- the interpreter of one path

type Decision struct {
	B bool   `json:"b"`
	V uint64 `json:"v"`
	K uint8  `json:"k"` // 0 branch, 1 choice, 2 value
}

type Interp struct {
	tb   *TB
	sol  *Solver
	w    *Worker
	cfg  *Config
	tc   *typeCache
	fns  map[*ssa.Function]*fnInfo
	fnClosures map[*ssa.Function]*Closure
	prog *ssa.Program

	// persistent per worker
	globals     map[*ssa.Global]*Obj
	inited      map[*ssa.Package]bool
	persistMode bool
	journal     []journalEnt

	// path state
	objID    int
	nextAddr uint64
	addrs    []*Obj
	gors     []*Gor
	cur      *Gor
	pc       []*Term
	pcSet    map[*Term]bool
	model    Model
	prefix   []Decision
	trace    []Decision
	pos      int
	names    map[string]int
	side     map[Ptr]*Obj
	steps    int64
	raceOn   bool
	multi    bool
	fbitsMemo map[*Term]*Term
	fbitsN   int
	obs      []obsEnt
	reached  map[string]bool
	notes    []string
	sched    *schedState
	inputs   []inputVar
	labels   map[string]Value
	preempts int
	clock    *Term
	nclock   int
	merging  bool
	mutexes  map[Ptr]*mutexState
	asserts  int
	hostData map[string]any
	crashOn  bool
	crashN   int
	stepLimit int64
	hit      map[*ssa.Function]bool
	hooks    map[*ssa.Function]*hookInfo
	noSched  bool
	undo     []undoEnt
	mergeConds []*Term
	shadowed []*Obj
	shadowedM []*MapObj
	timers   []*timer
	crcPoly  map[Ptr]uint64
	atomVC   map[Ptr]*[]int
	noteOn   bool
}

type inputVar struct {
	Name string
	Term *Term
	Kind string
}

type obsEnt struct {
	label string
	vals  []Value
	typs  []types.Type
}

func (in *Interp) top(g *Gor) *Frame { return g.frames[len(g.frames)-1] }

func (in *Interp) resetPath() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		j := in.journal[i]
		if j.m != nil {
			*j.m = j.mo
		} else {
			j.o.cells[j.off] = j.old
		}
	}
	in.journal = in.journal[:0]
	in.addrs = nil
	in.gors = nil
	in.cur = nil
	in.pc = nil
	in.pcSet = map[*Term]bool{}
	in.trace = nil
	in.pos = 0
	in.names = map[string]int{}
	in.side = map[Ptr]*Obj{}
	in.steps = 0
	in.raceOn = false
	in.multi = false
	in.fbitsMemo = map[*Term]*Term{}
	in.fbitsN = 0
	in.obs = nil
	in.reached = map[string]bool{}
	in.notes = nil
	in.sched = nil
	in.inputs = nil
	in.labels = map[string]Value{}
	in.preempts = 0
	in.clock = nil
	in.nclock = 0
	in.mutexes = map[Ptr]*mutexState{}
	in.asserts = 0
	in.hostData = map[string]any{}
	in.crashOn = false
	in.crashN = 0
	in.nextAddr = 0x10000000
	in.merging = false
	in.undo = nil
	in.mergeConds = nil
	in.timers = nil
	in.atomVC = map[Ptr]*[]int{}
	for _, o := range in.shadowed {
		o.shadow = nil
	}
	for _, m := range in.shadowedM {
		m.shadow = nil
	}
	in.shadowed, in.shadowedM = nil, nil
	in.noSched = false
}

func (in *Interp) violation(msg string) {
	panic(pathEnd{"violation", msg + in.where()})
}

func (in *Interp) where() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString(" [")
	n := 0
	for i := len(in.cur.frames) - 1; i >= 0 && n < 6; i-- {
		f := in.cur.frames[i]
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(shortName(f.fi.name))
		if f.pc < len(f.fi.blocks[f.block]) {
			if p := f.fi.blocks[f.block][f.pc].in.Pos(); p.IsValid() {
				pp := in.prog.Fset.Position(p)
				fmt.Fprintf(&sb, ":%d", pp.Line)
			}
		}
		n++
	}
	sb.WriteString("]")
	return sb.String()
}

func shortName(s string) string {
	return strings.ReplaceAll(s, "github.com/vivint/rothko/", "")
}

// goPanic raises a Go run-time panic in the current goroutine.
func (in *Interp) goPanic(msg string) {
	panic(goPanicSignal{msg: msg})
}

type goPanicSignal struct {
	msg string
	v   *Iface
}

// ---- decisions

func (in *Interp) addPC(t *Term) {
	if t.isConst() || in.pcSet[t] {
		return
	}
	if t.op == OpAnd {
		in.addPC(t.k[0])
		in.addPC(t.k[1])
		return
	}
	in.pcSet[t] = true
	in.pc = append(in.pc, t)
}

func (in *Interp) evalModel(t *Term) uint64 {
	return in.tb.Eval(t, in.model, map[*Term]uint64{})
}

// solve asks whether pc && c is satisfiable.
func (in *Interp) solve(c *Term) (Res, Model) {
	if c.isConst() {
		if c.val == 1 {
			return Sat, in.model
		}
		return Unsat, nil
	}
	if in.pcSet[c] {
		return Sat, in.model
	}
	if in.pcSet[in.tb.Not(c)] {
		return Unsat, nil
	}
	as := append(in.sol.slice(in.pc, c), c)
	in.expire()
	r, m := in.sol.Check(as)
	if r == Sat {
		nm := make(Model, len(in.model)+len(m))
		for k, v := range in.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		return Sat, nm
	}
	return r, nil
}

// endReplay is called when the decision prefix is exhausted, to make sure the
// model satisfies the path condition.
func (in *Interp) endReplay() {
	memo := map[*Term]uint64{}
	for _, c := range in.pc {
		if in.tb.Eval(c, in.model, memo) != 1 {
			r, m := in.sol.Check(in.pc)
			if r == Unsat {
				panic(pathEnd{"assume", "infeasible prefix"})
			}
			if r == Unknown {
				panic(pathEnd{"incomplete", "solver unknown on path condition"})
			}
			for k, v := range m {
				in.model[k] = v
			}
			return
		}
	}
}

func (in *Interp) replaying() bool { return in.pos < len(in.prefix) }

func (in *Interp) nextReplay(kind uint8) Decision {
	d := in.prefix[in.pos]
	if d.K != kind {
		panic(pathEnd{"incomplete", fmt.Sprintf("replay divergence at decision %d: kind %d want %d%s", in.pos, d.K, kind, in.where())})
	}
	in.pos++
	in.trace = append(in.trace, d)
	return d
}

func (in *Interp) afterReplay() {
	if in.pos == len(in.prefix) {
		in.endReplay()
	}
}

// branch decides a boolean term, forking if both outcomes are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if in.pcSet[c] {
		return true
	}
	nc := in.tb.Not(c)
	if in.pcSet[nc] {
		return false
	}
	if in.merging {
		return in.mergeImplied(c)
	}
	if in.replaying() {
		d := in.nextReplay(0)
		if d.B {
			in.addPC(c)
		} else {
			in.addPC(nc)
		}
		in.afterReplay()
		return d.B
	}
	v := in.evalModel(c) == 1
	stats.modelHits.Add(1)
	other := nc
	if !v {
		other = c
	}
	r, m := in.solve(other)
	switch r {
	case Sat:
		in.w.fork(in.trace, Decision{B: !v}, m)
	case Unknown:
		in.w.incomplete("solver unknown on branch" + in.where())
	}
	if r != Unsat {
		in.trace = append(in.trace, Decision{B: v})
		in.pos = len(in.trace)
		in.prefixSync()
	}
	if r == Unsat {
		// implied; no decision recorded
		in.impliedDecision(v)
	}
	if v {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return v
}

// impliedDecision records a forced decision too, so that replays need no query.
func (in *Interp) impliedDecision(v bool) {
	in.trace = append(in.trace, Decision{B: v})
	in.prefixSync()
}

func (in *Interp) prefixSync() {
	in.prefix = in.trace
	in.pos = len(in.trace)
}

// choose makes an unconstrained n-way choice (schedules, enumerated inputs).
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.merging {
		panic(mergeAbort{})
	}
	if in.replaying() {
		d := in.nextReplay(1)
		in.afterReplay()
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		in.w.fork(in.trace, Decision{K: 1, V: uint64(i)}, in.model)
	}
	in.trace = append(in.trace, Decision{K: 1, V: 0})
	in.prefixSync()
	return 0
}

// concTerm enumerates the feasible values of t.
func (in *Interp) concTerm(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if in.merging {
		panic(mergeAbort{})
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(pathEnd{"incomplete", "too many values when making a term concrete" + in.where()})
		}
		if in.replaying() {
			d := in.nextReplay(2)
			eq := in.tb.Eq(t, &Term{op: OpConst, sort: t.sort, val: d.V})
			if d.B {
				in.addPC(eq)
			} else {
				in.addPC(in.tb.Not(eq))
			}
			in.afterReplay()
			if d.B {
				return d.V
			}
			continue
		}
		v := in.evalModel(t)
		eq := in.tb.Eq(t, &Term{op: OpConst, sort: t.sort, val: v})
		r, m := in.solve(in.tb.Not(eq))
		if r == Sat {
			in.w.fork(in.trace, Decision{K: 2, V: v, B: false}, m)
		} else if r == Unknown {
			in.w.incomplete("solver unknown on value enumeration" + in.where())
		}
		in.trace = append(in.trace, Decision{K: 2, V: v, B: true})
		in.prefixSync()
		in.addPC(eq)
		return v
	}
}

func (in *Interp) concInt(t *Term) int64 { return sext(in.concTerm(t), t.sort) }

func (in *Interp) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if in.pcSet[c] {
		return
	}
	if !in.replaying() {
		if in.evalModel(c) != 1 {
			r, m := in.solve(c)
			if r == Unsat {
				panic(pathEnd{"assume", ""})
			}
			if r == Unknown {
				panic(pathEnd{"incomplete", "solver unknown on assumption" + in.where()})
			}
			in.model = m
		}
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, msg string) {
	in.asserts++
	if c.isConst() {
		if c.val == 0 {
			in.violation("assert: " + msg)
		}
		return
	}
	if in.replaying() {
		// already checked by the path that forked us; condition holds here
		in.addPC(c)
		return
	}
	nc := in.tb.Not(c)
	r, m := in.solve(nc)
	switch r {
	case Sat:
		old := in.model
		in.model = m
		in.w.report("assert: "+msg+in.where(), in)
		in.model = old
		if in.evalModel(c) != 1 {
			// continue only if some execution passes
			r, m := in.solve(c)
			if r != Sat {
				panic(pathEnd{"violation-reported", msg})
			}
			in.model = m
		}
	case Unknown:
		in.w.incomplete("solver unknown on assertion " + msg + in.where())
	}
	in.addPC(c)
}

// ---- running

func (in *Interp) call(g *Gor, fn *ssa.Function, args []Value, free []Value, dst int) *Frame {
	fi := in.info(fn)
	if in.hit != nil && !in.hit[fn] {
		in.hit[fn] = true
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nregs), dst: dst, prev: -1}
	for i, r := range fi.params {
		f.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		f.regs[r] = free[i]
	}
	g.frames = append(g.frames, f)
	if len(g.frames) > 2000 {
		panic(pathEnd{"incomplete", "call depth limit" + in.where()})
	}
	return f
}

func (in *Interp) opv(f *Frame, o operand) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	if o.g != nil {
		return Ptr{in.global(o.g), 0}
	}
	return o.v
}

func (in *Interp) global(g *ssa.Global) *Obj {
	in.ensureInit(g.Pkg)
	return in.globalRaw(g)
}

func (in *Interp) globalRaw(g *ssa.Global) *Obj {
	o, ok := in.globals[g]
	if !ok {
		t := g.Type().(*types.Pointer).Elem()
		pm := in.persistMode
		in.persistMode = true
		o = in.newObj(in.tc.size(t), g.String())
		in.persistMode = pm
		in.globals[g] = o
	}
	return o
}

// aliasGlobals gives variables of a package that is not initialised the values
// of those of the same name in another one.
func (in *Interp) aliasGlobals(p *ssa.Package, from string, names ...string) {
	q := in.prog.ImportedPackage(from)
	if q == nil {
		return
	}
	for _, name := range names {
		to, src := p.Var(name), q.Var(name)
		if to != nil && src != nil {
			copy(in.globalRaw(to).cells, in.global(src).cells)
		}
	}
}

// ensureInit runs the package's own initialiser (lazily, not its imports').
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		if p.Pkg.Path() == "os" {
			in.aliasGlobals(p, "io/fs", "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed")
		}
		return
	}
	ensurePkgBuilt(p)
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// run it on a private goroutine to completion
	sg, sc, sm, sr, smg := in.gors, in.cur, in.persistMode, in.raceOn, in.merging
	smulti := in.multi
	sns := in.noSched
	in.noSched = true
	in.persistMode = true
	in.raceOn = false
	in.multi = false
	in.merging = false
	g := &Gor{id: 0}
	in.gors = []*Gor{g}
	in.cur = g
	in.call(g, init, nil, nil, -1)
	in.runToEnd(g)
	in.gors, in.cur, in.persistMode, in.raceOn, in.merging = sg, sc, sm, sr, smg
	in.multi = smulti
	in.noSched = sns
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/godebug": true, "internal/cpu": true,
	"net": true, "os/signal": true, "testing": true, "flag": true, "log": true, "crypto/rand": true, "internal/poll": true,
	"google.golang.org/protobuf": true, "reflect": true, "time": false, "internal/bisect": true, "go.uber.org/zap": true, "net/http": false,
	"github.com/gogo/protobuf/proto": true, "crypto/sha256": true}

func (in *Interp) runToEnd(g *Gor) {
	for !g.done {
		in.step(g)
	}
}

// step executes instructions of g until it reaches a visible operation (when
// several goroutines exist), parks, or finishes. It handles Go panics.
func (in *Interp) step(g *Gor) {
	in.cur = g
	defer func() {
		if r := recover(); r != nil {
			if cs, ok := r.(crashSignal); ok {
				in.crashUnwind(cs.g)
				return
			}
			if gp, ok := r.(goPanicSignal); ok {
				if in.merging {
					panic(r)
				}
				pv := &panicVal{msg: gp.msg, where: in.where()}
				if gp.v != nil {
					pv.v = *gp.v
				} else {
					pv.v = in.runtimeErr(gp.msg)
				}
				in.unwind(g, pv)
				return
			}
			panic(r)
		}
	}()
	for !g.done && !g.parked {
		if in.steps&0xffff == 0 {
			in.expire()
		}
		if in.stepLimit > 0 && in.steps > in.stepLimit {
			panic(pathEnd{"incomplete", "step limit" + in.where()})
		}
		if len(g.frames) == 0 {
			g.done = true
			return
		}
		f := g.frames[len(g.frames)-1]
		if f.pan != nil {
			in.unwindStep(g, f)
			continue
		}
		in.steps++
		if !in.exec(g, f, &f.fi.blocks[f.block][f.pc]) {
			return
		}
	}
}

// ret pops the frame and delivers v to the caller.
func (in *Interp) ret(g *Gor, f *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if f.atomic {
		g.atomic--
	}
	if f.onRet != nil {
		f.onRet(in, g, v)
		return
	}
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	c := g.frames[len(g.frames)-1]
	if f.isDefer {
		return // caller re-executes RunDefers / unwindStep
	}
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
	c.pc++
}

// unwind starts panicking in the top frame.
func (in *Interp) unwind(g *Gor, pv *panicVal) {
	if len(g.frames) == 0 {
		in.uncaught(g, pv)
	}
	f := g.frames[len(g.frames)-1]
	f.pan = pv
}

func (in *Interp) uncaught(g *Gor, pv *panicVal) {
	if pv.exit {
		g.done = true
		return
	}
	panic(pathEnd{"violation", "panic: " + pv.msg + pv.where})
}

func (in *Interp) unwindStep(g *Gor, f *Frame) {
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		in.callDeferred(g, d)
		return
	}
	pv := f.pan
	if pv.recovered {
		f.pan = nil
		if f.fi.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fi.fn.Recover.Index
			f.pc = 0
			return
		}
		res := f.fi.fn.Signature.Results()
		var v Value
		switch res.Len() {
		case 0:
		case 1:
			v = in.zero(res.At(0).Type())
		default:
			v = in.zero(res)
		}
		in.ret(g, f, v)
		return
	}
	g.frames = g.frames[:len(g.frames)-1]
	if f.atomic {
		g.atomic--
	}
	if len(g.frames) == 0 {
		in.uncaught(g, pv)
		return
	}
	c := g.frames[len(g.frames)-1]
	c.pan = pv
}

func (in *Interp) callDeferred(g *Gor, d deferred) {
	n := len(g.frames)
	in.invoke(g, d.fn, d.args, -1, nil)
	if len(g.frames) > n {
		g.frames[len(g.frames)-1].isDefer = true
	}
}

func (in *Interp) runtimeErr(msg string) Iface {
	t := in.w.eng.runtimeErrType()
	if t == nil {
		return Iface{types.Typ[types.String], msg}
	}
	return Iface{t, "runtime error: " + msg}
}

// invoke calls a function value. Intrinsics complete immediately; it reports
// whether a frame was pushed. For non-frame calls with dst>=0 the result is
// returned.
func (in *Interp) invoke(g *Gor, c *Closure, args []Value, dst int, site *cinstr) (pushed bool, res Value) {
	if c == nil {
		in.goPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if c.host != nil {
		return false, c.host(in, g, args)
	}
	if c.bi != nil {
		return false, in.builtin(g, c.bi, args, site)
	}
	fn := c.fn
	h := in.hookOf(fn)
	if h.redir != nil {
		nf := in.call(g, h.redir, args, nil, dst)
		if !h.plain {
			nf.atomic = true
			g.atomic++
		}
		return true, nil
	}
	if h.f != nil {
		n := len(g.frames)
		v := h.f(in, g, &icall{fn: fn, args: args, dst: dst, site: site})
		if len(g.frames) > n {
			return true, nil
		}
		return false, v
	}
	in.call(g, fn, args, c.free, dst)
	return true, nil
}

type icall struct {
	fn   *ssa.Function
	args []Value
	dst  int
	site *cinstr
}

type hookInfo struct {
	f     intrinsic
	redir *ssa.Function
	plain bool
	only  string // the model is used on request
	vis   visFunc
}

type intrinsic func(in *Interp, g *Gor, c *icall) Value

func (in *Interp) hookOf(fn *ssa.Function) *hookInfo {
	if h, ok := in.hooks[fn]; ok {
		return h
	}
	h := in.w.eng.findHook(fn, in.cfg)
	in.hooks[fn] = h
	return h
}

// method resolves an interface method call.
func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	ct := in.tc.canonical(t)
	k := msetKey{ct, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := in.tc.msets[k]; ok {
		return f
	}
	f := in.w.eng.lookupMethod(ct, m)
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	in.tc.msets[k] = f
	return f
}

func (in *Interp) jump(f *Frame, to int) {
	if to <= f.block && in.cfg.loopLimit > 0 {
		if f.steps == nil {
			f.steps = map[int]int{}
		}
		f.steps[to]++
		if f.steps[to] > in.cfg.loopLimit {
			panic(pathEnd{"incomplete", fmt.Sprintf("loop limit %d%s", in.cfg.loopLimit, in.where())})
		}
	}
	f.prev = f.block
	f.block = to
	f.pc = 0
	in.phis(f)
}

func (in *Interp) phis(f *Frame) {
	blk := f.fi.blocks[f.block]
	if len(blk) == 0 {
		return
	}
	if _, ok := blk[0].in.(*ssa.Phi); !ok {
		return
	}
	e := f.fi.pred[f.block][f.prev]
	var tmp [8]Value
	vals := tmp[:0]
	n := 0
	for n < len(blk) {
		if _, ok := blk[n].in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, in.opv(f, blk[n].ops[e]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[blk[i].dst] = vals[i]
	}
	f.pc = n
}

// exec runs one instruction; false means "stop stepping this goroutine now".
func (in *Interp) exec(g *Gor, f *Frame, ci *cinstr) bool {
	switch i := ci.in.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := in.newObj(in.tc.size(t), i.Comment)
		f.regs[ci.dst] = Ptr{o, 0}

	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return in.execRecv(g, f, ci, i)
		}
		f.regs[ci.dst] = in.unop(i, in.opv(f, ci.ops[0]))

	case *ssa.BinOp:
		f.regs[ci.dst] = in.binop(i.Op, in.opv(f, ci.ops[0]), in.opv(f, ci.ops[1]), i.X.Type(), i.Y.Type())

	case *ssa.Call:
		return in.execCall(g, f, ci, &i.Call)

	case *ssa.Store:
		in.store(in.opv(f, ci.ops[0]), in.opv(f, ci.ops[1]), i.Val.Type())

	case *ssa.FieldAddr:
		f.regs[ci.dst] = in.fieldAddr(i, in.opv(f, ci.ops[0]))

	case *ssa.IndexAddr:
		f.regs[ci.dst] = in.indexAddr(i, in.opv(f, ci.ops[0]), in.opv(f, ci.ops[1]).(*Term))

	case *ssa.Field:
		st := i.X.Type().Underlying().(*types.Struct)
		f.regs[ci.dst] = in.sub(in.opv(f, ci.ops[0]).(Agg), in.tc.fieldOff(st, i.Field), i.Type())

	case *ssa.Index:
		f.regs[ci.dst] = in.index(i, in.opv(f, ci.ops[0]), in.opv(f, ci.ops[1]).(*Term))

	case *ssa.If:
		c := in.opv(f, ci.ops[0]).(*Term)
		if !c.isConst() {
			if mi := f.fi.merge[f.block]; mi != nil && !in.cfg.noMerge {
				if in.tryMerge(g, f, c, mi) {
					return true
				}
			}
		}
		b := f.fi.fn.Blocks[f.block]
		if in.branch(c) {
			in.jump(f, b.Succs[0].Index)
		} else {
			in.jump(f, b.Succs[1].Index)
		}
		return true

	case *ssa.Jump:
		in.jump(f, f.fi.fn.Blocks[f.block].Succs[0].Index)
		return true

	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = in.opv(f, ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for k, o := range ci.ops {
				t[k] = in.opv(f, o)
			}
			v = t
		}
		in.ret(g, f, v)
		return true

	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			if g.parked {
				return false
			}
			d := f.defers[len(f.defers)-1]
			if !in.visReady(g, d.fn, d.args) {
				return false
			}
			f.defers = f.defers[:len(f.defers)-1]
			in.callDeferred(g, d)
			return true
		}

	case *ssa.Phi:
		// only reached at function entry blocks without preds
		panic("phi")

	case *ssa.MakeInterface:
		f.regs[ci.dst] = Iface{i.X.Type(), in.opv(f, ci.ops[0])}

	case *ssa.ChangeInterface, *ssa.ChangeType:
		f.regs[ci.dst] = in.opv(f, ci.ops[0])

	case *ssa.Convert:
		f.regs[ci.dst] = in.convert(in.opv(f, ci.ops[0]), i.X.Type(), i.Type())

	case *ssa.MultiConvert:
		f.regs[ci.dst] = in.convert(in.opv(f, ci.ops[0]), i.X.Type(), i.Type())

	case *ssa.Extract:
		f.regs[ci.dst] = in.opv(f, ci.ops[0]).(Tuple)[i.Index]

	case *ssa.Slice:
		f.regs[ci.dst] = in.slice(i, f, ci)

	case *ssa.MakeSlice:
		f.regs[ci.dst] = in.makeSlice(i.Type(), in.opv(f, ci.ops[0]).(*Term), in.opv(f, ci.ops[1]).(*Term), i.Len.Type(), i.Cap.Type())

	case *ssa.MakeMap:
		f.regs[ci.dst] = in.newMap()

	case *ssa.MakeChan:
		n := in.concInt(in.opv(f, ci.ops[0]).(*Term))
		if n < 0 || n > 1<<20 {
			in.goPanic("makechan: size out of range")
		}
		f.regs[ci.dst] = in.newChan(int(n), i.Type())

	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		free := make([]Value, len(ci.ops)-1)
		for k := range free {
			free[k] = in.opv(f, ci.ops[k+1])
		}
		f.regs[ci.dst] = &Closure{fn: fn, free: free}

	case *ssa.MapUpdate:
		m, _ := in.opv(f, ci.ops[0]).(*MapObj)
		in.mapSet(m, in.opv(f, ci.ops[1]), in.opv(f, ci.ops[2]), i.Map.Type().Underlying().(*types.Map).Key())

	case *ssa.Lookup:
		x := in.opv(f, ci.ops[0])
		switch xt := i.X.Type().Underlying().(type) {
		case *types.Map:
			m, _ := x.(*MapObj)
			v, ok := in.mapGet(m, in.opv(f, ci.ops[1]), xt.Key(), xt.Elem())
			if i.CommaOk {
				f.regs[ci.dst] = Tuple{v, in.tb.Bool(ok)}
			} else {
				f.regs[ci.dst] = v
			}
		default: // string
			idx := in.opv(f, ci.ops[1]).(*Term)
			f.regs[ci.dst] = in.strIndex(x, idx, isSigned(i.Index.Type()))
		}

	case *ssa.TypeAssert:
		f.regs[ci.dst] = in.typeAssert(i, in.opv(f, ci.ops[0]))

	case *ssa.Range:
		x := in.opv(f, ci.ops[0])
		if m, ok := x.(*MapObj); ok {
			it := &iter{m: m}
			if m != nil {
				if in.raceOn {
					in.raceMap(m, false)
				}
				for k := range m.ent {
					if !m.ent[k].del {
						it.keys = append(it.keys, m.ent[k].k)
					}
				}
				if in.cfg.mapOrder && len(it.keys) > 1 {
					in.permute(it.keys)
				}
			}
			f.regs[ci.dst] = it
		} else {
			f.regs[ci.dst] = &iter{str: x}
		}

	case *ssa.Next:
		f.regs[ci.dst] = in.next(i, in.opv(f, ci.ops[0]).(*iter))

	case *ssa.Panic:
		v := in.opv(f, ci.ops[0]).(Iface)
		panic(goPanicSignal{msg: in.panicMsg(v), v: &v})

	case *ssa.Defer:
		fn, args := in.prepCall(f, ci, &i.Call)
		f.defers = append(f.defers, deferred{fn: fn, args: args})

	case *ssa.Go:
		fn, args := in.prepCall(f, ci, &i.Call)
		in.spawn(g, fn, args)

	case *ssa.Send:
		return in.execSend(g, f, ci, i)

	case *ssa.Select:
		return in.execSelect(g, f, ci, i)

	case *ssa.SliceToArrayPointer:
		s := in.opv(f, ci.ops[0]).(Slice)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			in.goPanic("cannot convert slice to array pointer: length too short")
		}
		if s.o == nil {
			f.regs[ci.dst] = Ptr{}
		} else {
			f.regs[ci.dst] = Ptr{s.o, s.off}
		}

	default:
		panic(unsupported(fmt.Sprintf("instruction %T", i)))
	}
	f.pc++
	return true
}

func (in *Interp) panicMsg(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *Term:
		return x.String()
	}
	return v.t.String()
}

func (in *Interp) prepCall(f *Frame, ci *cinstr, c *ssa.CallCommon) (*Closure, []Value) {
	if ci.call.method != nil {
		recv, _ := in.opv(f, ci.ops[0]).(Iface)
		if recv.t == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.method(recv.t, ci.call.method)
		args := make([]Value, len(c.Args)+1)
		args[0] = recv.v
		if args[0] == nil {
			args[0] = in.zero(recv.t)
		}
		for k := range c.Args {
			args[k+1] = in.opv(f, ci.ops[k+1])
		}
		return in.fnVal(fn), args
	}
	cv := in.opv(f, ci.ops[0])
	cl, _ := cv.(*Closure)
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = in.opv(f, ci.ops[k+1])
	}
	return cl, args
}

func (in *Interp) execCall(g *Gor, f *Frame, ci *cinstr, c *ssa.CallCommon) bool {
	fn, args := in.prepCall(f, ci, c)
	if !in.visReady(g, fn, args) {
		return false
	}
	if fn != nil && fn.bi != nil {
		if fn.bi.Name() == "recover" {
			f.regs[ci.dst] = in.doRecover(g, f)
			f.pc++
			return true
		}
		v := in.builtin(g, fn.bi, args, ci)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		f.pc++
		return true
	}
	pushed, v := in.invoke(g, fn, args, ci.dst, ci)
	if pushed {
		return true
	}
	if g.parked {
		return false
	}
	if ci.dst >= 0 {
		f.regs[ci.dst] = v
	}
	f.pc++
	return true
}

func (in *Interp) doRecover(g *Gor, f *Frame) Value {
	if !f.isDefer || len(g.frames) < 2 {
		return Iface{}
	}
	p := g.frames[len(g.frames)-2].pan
	if p == nil || p.recovered || p.exit {
		return Iface{}
	}
	p.recovered = true
	if p.v.t == nil {
		return in.runtimeErr("panic called with nil argument")
	}
	return p.v
}

// ---- operators

func (in *Interp) unop(i *ssa.UnOp, x Value) Value {
	switch i.Op {
	case token.MUL:
		return in.load(x, i.Type())
	case token.NOT:
		return in.tb.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort == SF64 || t.sort == SF32 {
			return in.tb.FNeg(t)
		}
		return in.tb.Neg(t)
	case token.XOR:
		return in.tb.BNot(x.(*Term))
	}
	panic(unsupported("unop " + i.Op.String()))
}

func (in *Interp) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	tb := in.tb
	switch op {
	case token.EQL:
		return in.eqMixed(x, y, xt, yt)
	case token.NEQ:
		return tb.Not(in.eqMixed(x, y, xt, yt))
	}
	a, ok := x.(*Term)
	if !ok {
		// strings
		switch op {
		case token.ADD:
			return in.strCat(x, y)
		case token.LSS:
			return in.strLess(x, y)
		case token.GTR:
			return in.strLess(y, x)
		case token.LEQ:
			return tb.Not(in.strLess(y, x))
		case token.GEQ:
			return tb.Not(in.strLess(x, y))
		}
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, x)))
	}
	b := y.(*Term)
	if a.sort == SF64 || a.sort == SF32 {
		switch op {
		case token.ADD:
			return tb.FBin(OpFAdd, a, b)
		case token.SUB:
			return tb.FBin(OpFSub, a, b)
		case token.MUL:
			return tb.FBin(OpFMul, a, b)
		case token.QUO:
			return tb.FBin(OpFDiv, a, b)
		case token.LSS:
			return tb.FCmp(OpFLt, a, b)
		case token.LEQ:
			return tb.FCmp(OpFLe, a, b)
		case token.GTR:
			return tb.FCmp(OpFLt, b, a)
		case token.GEQ:
			return tb.FCmp(OpFLe, b, a)
		}
		panic(unsupported("float op " + op.String()))
	}
	if a.sort == SBool {
		switch op {
		case token.AND:
			return tb.And(a, b)
		case token.OR:
			return tb.Or(a, b)
		}
	}
	signed := isSigned(xt)
	switch op {
	case token.ADD:
		return tb.Add(a, b)
	case token.SUB:
		return tb.Sub(a, b)
	case token.MUL:
		return tb.Mul(a, b)
	case token.QUO, token.REM:
		if in.branch(tb.Eq(b, tb.BV(b.sort, 0))) {
			in.goPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tb.SDiv(a, b)
		case op == token.QUO:
			return tb.UDiv(a, b)
		case signed:
			return tb.SRem(a, b)
		default:
			return tb.URem(a, b)
		}
	case token.AND:
		return tb.BAnd(a, b)
	case token.OR:
		return tb.BOr(a, b)
	case token.XOR:
		return tb.BXor(a, b)
	case token.AND_NOT:
		return tb.BAnd(a, tb.BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if in.branch(tb.Slt(b, tb.BV(b.sort, 0))) {
				in.goPanic("negative shift amount")
			}
		}
		w := a.sort
		var s *Term
		switch {
		case b.sort == w:
			s = b
		case b.sort < w:
			s = tb.ZExt(b, w)
		default:
			if b.isConst() {
				s = tb.BV(w, min(b.val, uint64(w)))
			} else {
				s = tb.Ite(tb.Ule(tb.BV(b.sort, uint64(w)), b), tb.BV(w, uint64(w)), tb.Extract(b, int(w)-1, 0))
			}
		}
		if op == token.SHL {
			return tb.Shl(a, s)
		}
		if signed {
			return tb.AShr(a, s)
		}
		return tb.LShr(a, s)
	case token.LSS:
		if signed {
			return tb.Slt(a, b)
		}
		return tb.Ult(a, b)
	case token.LEQ:
		if signed {
			return tb.Sle(a, b)
		}
		return tb.Ule(a, b)
	case token.GTR:
		if signed {
			return tb.Slt(b, a)
		}
		return tb.Ult(b, a)
	case token.GEQ:
		if signed {
			return tb.Sle(b, a)
		}
		return tb.Ule(b, a)
	}
	panic(unsupported("binop " + op.String()))
}

func (in *Interp) eqMixed(x, y Value, xt, yt types.Type) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi != yi {
		if xi {
			return in.eq(x, Iface{yt, y}, xt)
		}
		return in.eq(Iface{xt, x}, y, yt)
	}
	return in.eq(x, y, xt)
}

func (in *Interp) fieldAddr(i *ssa.FieldAddr, x Value) Value {
	st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	off := in.tc.fieldOff(st, i.Field)
	switch p := x.(type) {
	case Ptr:
		if p.o == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		return Ptr{p.o, p.off + off}
	case *SymPtr:
		q := *p
		q.off += off
		return &q
	case nil:
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("fieldAddr %T", x)))
}

// idx64 sign/zero extends an index to 64 bits.
func (in *Interp) idx64(t *Term, signed bool) *Term {
	if t.sort == 64 {
		return t
	}
	if signed {
		return in.tb.SExt(t, 64)
	}
	return in.tb.ZExt(t, 64)
}

func (in *Interp) bounds(idx *Term, n int) {
	if idx.isConst() {
		if idx.val >= uint64(n) {
			in.goPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.val), n))
		}
		return
	}
	if !in.branch(in.tb.Ult(idx, in.tb.BV(64, uint64(n)))) {
		in.goPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (in *Interp) indexAddr(i *ssa.IndexAddr, x Value, idx *Term) Value {
	idx = in.idx64(idx, isSigned(i.Index.Type()))
	var o *Obj
	var base, n int
	var et types.Type
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s, _ := x.(Slice)
		o, base, n, et = s.o, s.off, s.len, u.Elem()
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := in.toPtr(x)
		if p.o == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		o, base, n, et = p.o, p.off, int(at.Len()), at.Elem()
	default:
		panic(unsupported("indexAddr"))
	}
	in.bounds(idx, n)
	st := in.tc.size(et)
	if idx.isConst() {
		return Ptr{o, base + int(idx.val)*st}
	}
	if n == 1 {
		return Ptr{o, base}
	}
	if n > in.cfg.symIndexMax {
		return Ptr{o, base + int(in.concInt(idx))*st}
	}
	return &SymPtr{o: o, base: base, stride: st, n: n, idx: idx}
}

func (in *Interp) index(i *ssa.Index, x Value, idx *Term) Value {
	idx = in.idx64(idx, isSigned(i.Index.Type()))
	switch u := i.X.Type().Underlying().(type) {
	case *types.Array:
		in.bounds(idx, int(u.Len()))
		k := int(in.concInt(idx))
		return in.sub(x.(Agg), k*in.tc.size(u.Elem()), u.Elem())
	}
	return in.strIndex(x, idx, true)
}

func (in *Interp) strIndex(x Value, idx *Term, signed bool) Value {
	idx = in.idx64(idx, signed)
	n := strLen(x)
	in.bounds(idx, n)
	if idx.isConst() {
		return in.strAt(x, int(idx.val))
	}
	return in.muxTerm(idx, in.strBytes(x))
}

func (in *Interp) boundVal(v Value, t types.Type, hi *Term, what string) int {
	// value used as a slice bound: 0 <= v <= hi
	b := in.idx64(v.(*Term), isSigned(t))
	if !in.branch(in.tb.Ule(b, hi)) {
		in.goPanic("slice bounds out of range (" + what + ")")
	}
	return int(in.concInt(b))
}

func (in *Interp) slice(i *ssa.Slice, f *Frame, ci *cinstr) Value {
	// operands order: X, Low, High, Max (nil ones are omitted by Operands? they are kept as nil values)
	x := in.opv(f, ci.ops[0])
	get := func(k int, v ssa.Value) (Value, types.Type) {
		if v == nil {
			return nil, nil
		}
		return in.opv(f, ci.ops[k]), v.Type()
	}
	lo, lot := get(1, i.Low)
	hi, hit := get(2, i.High)
	mx, mxt := get(3, i.Max)
	tb := in.tb
	var o *Obj
	var base, length, capa, st int
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := strLen(x)
		h := n
		if hi != nil {
			h = in.boundVal(hi, hit, tb.BV(64, uint64(n)), "high")
		}
		l := 0
		if lo != nil {
			l = in.boundVal(lo, lot, tb.BV(64, uint64(h)), "low")
		}
		if x == nil {
			return ""
		}
		return in.strSlice(x, l, h)
	case *types.Slice:
		s, _ := x.(Slice)
		o, base, length, capa, st = s.o, s.off, s.len, s.cap, in.tc.size(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := in.toPtr(x)
		if p.o == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		o, base, length, capa, st = p.o, p.off, int(at.Len()), int(at.Len()), in.tc.size(at.Elem())
	default:
		panic(unsupported("slice of " + i.X.Type().String()))
	}
	m := capa
	if mx != nil {
		m = in.boundVal(mx, mxt, tb.BV(64, uint64(capa)), "max")
	}
	h := length
	if hi != nil {
		h = in.boundVal(hi, hit, tb.BV(64, uint64(m)), "high")
	}
	l := 0
	if lo != nil {
		l = in.boundVal(lo, lot, tb.BV(64, uint64(h)), "low")
	} else if h < 0 {
		in.goPanic("slice bounds out of range")
	}
	if o == nil {
		return Slice{}
	}
	return Slice{o, base + l*st, h - l, m - l}
}

// checkAlloc reports an allocation that may exceed the bound.
func (in *Interp) checkAlloc(x *Term, what string) {
	lim := in.tb.BV(64, uint64(in.cfg.maxAlloc))
	if in.branch(in.tb.Ule(x, lim)) {
		return
	}
	if in.branch(in.tb.Slt(x, in.tb.BV(64, 0))) {
		in.goPanic("makeslice: " + what + " out of range")
	}
	in.violation(fmt.Sprintf("alloc: makeslice %s may exceed %d elements", what, in.cfg.maxAlloc))
}

func (in *Interp) makeSlice(t types.Type, n, c *Term, nt, ct types.Type) Value {
	n = in.idx64(n, isSigned(nt))
	c = in.idx64(c, isSigned(ct))
	et := t.Underlying().(*types.Slice).Elem()
	st := in.tc.size(et)
	in.checkAlloc(n, "len")
	if !same(n, c) {
		in.checkAlloc(c, "cap")
		if !in.branch(in.tb.Ule(n, c)) {
			in.goPanic("makeslice: cap out of range")
		}
	}
	nn, cc := int(in.concInt(n)), int(in.concInt(c))
	o := in.newObj(cc*st, "make")
	return Slice{o, 0, nn, cc}
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	tb := in.tb
	if tbas, ok := tu.(*types.Basic); ok {
		if tbas.Info()&types.IsString != 0 {
			switch fx := fu.(type) {
			case *types.Slice:
				s, _ := v.(Slice)
				if eb, ok := fx.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					var out []*Term
					for k := 0; k < s.len; k++ {
						r := in.norm(s.o.cells[s.off+k], types.Typ[types.Int32]).(*Term)
						out = append(out, in.encodeRune(r)...)
					}
					return mkStr(out)
				}
				return in.bytesToStr(s)
			case *types.Basic:
				if fx.Info()&types.IsString != 0 {
					return v
				}
				r := v.(*Term)
				r64 := in.idx64(r, isSigned(from))
				if !in.branch(tb.Ule(r64, tb.BV(64, 0x10ffff))) {
					return "\uFFFD"
				}
				return mkStr(in.encodeRune(tb.Extract(r64, 31, 0)))
			}
		}
		if tbas.Kind() == types.UnsafePointer {
			if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.Uintptr {
				return in.addrToPtr(uint64(in.concInt(v.(*Term))))
			}
			return v
		}
		if fb, ok := fu.(*types.Basic); ok {
			if fb.Kind() == types.UnsafePointer && tbas.Kind() == types.Uintptr {
				return tb.BV(64, in.ptrToAddr(in.toPtr(v)))
			}
			fs, ok1 := basicSort(fb)
			ts, ok2 := basicSort(tbas)
			if ok1 && ok2 {
				x := v.(*Term)
				switch {
				case isBV(fs) && isBV(ts):
					if ts == fs {
						return x
					}
					if ts < fs {
						return tb.Extract(x, int(ts)-1, 0)
					}
					if isSigned(from) {
						return tb.SExt(x, ts)
					}
					return tb.ZExt(x, ts)
				case isBV(fs):
					return tb.IntToF(x, ts, isSigned(from))
				case isBV(ts):
					return tb.FToInt(x, ts, isSigned(to))
				default:
					return tb.FToF(x, ts)
				}
			}
		}
	}
	switch tx := tu.(type) {
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if eb, ok := tx.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				it := &iter{str: v}
				var rs []Value
				for {
					_, r, ok := in.nextRune(it)
					if !ok {
						break
					}
					rs = append(rs, r)
				}
				o := in.newObj(len(rs), "runes")
				copy(o.cells, rs)
				return Slice{o, 0, len(rs), len(rs)}
			}
			return in.strToBytes(v)
		}
		return v
	case *types.Pointer:
		return v // unsafe.Pointer -> *T
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (in *Interp) encodeRune(r *Term) []*Term {
	tb := in.tb
	c := func(x uint64) *Term { return tb.BV(32, x) }
	b := func(t *Term) *Term { return tb.Extract(t, 7, 0) }
	or := func(x uint64, t *Term) *Term { return tb.BOr(tb.BV(8, x), b(t)) }
	m := func(sh int) *Term { return tb.BAnd(tb.LShr(r, c(uint64(sh))), c(0x3f)) }
	if in.branch(tb.Ult(r, c(0x80))) {
		return []*Term{b(r)}
	}
	if in.branch(tb.Ult(r, c(0x800))) {
		return []*Term{or(0xC0, tb.LShr(r, c(6))), or(0x80, m(0))}
	}
	bad := tb.Or(tb.Ult(c(0x10ffff), r), tb.And(tb.Ule(c(0xd800), r), tb.Ule(r, c(0xdfff))))
	if in.branch(bad) {
		r = c(0xfffd)
	}
	if in.branch(tb.Ult(r, c(0x10000))) {
		return []*Term{or(0xE0, tb.LShr(r, c(12))), or(0x80, m(6)), or(0x80, m(0))}
	}
	return []*Term{or(0xF0, tb.LShr(r, c(18))), or(0x80, m(12)), or(0x80, m(6)), or(0x80, m(0))}
}

// nextRune decodes one rune of the iterator's string, forking as needed.
func (in *Interp) nextRune(it *iter) (int, *Term, bool) {
	n := strLen(it.str)
	if it.pos >= n {
		return 0, nil, false
	}
	at := it.pos
	if s, ok := it.str.(string); ok {
		for i, r := range s[at:] {
			_ = i
			sz := len(string(r))
			if r == 0xfffd {
				// maybe an invalid byte
				if !(len(s) >= at+3 && s[at:at+3] == "\uFFFD") {
					sz = 1
				}
			}
			it.pos += sz
			return at, in.tb.BV(32, uint64(r)), true
		}
	}
	tb := in.tb
	b := in.strBytes(it.str)[at:]
	c8 := func(x uint64) *Term { return tb.BV(8, x) }
	z := func(t *Term, hi int, sh uint64) *Term {
		return tb.Shl(tb.ZExt(tb.Extract(t, hi, 0), 32), tb.BV(32, sh))
	}
	rng := func(t *Term, lo, hi uint64) bool {
		return in.branch(tb.And(tb.Ule(c8(lo), t), tb.Ule(t, c8(hi))))
	}
	bad := func() (int, *Term, bool) {
		it.pos++
		return at, tb.BV(32, 0xfffd), true
	}
	if in.branch(tb.Ult(b[0], c8(0x80))) {
		it.pos++
		return at, tb.ZExt(b[0], 32), true
	}
	if rng(b[0], 0xc2, 0xdf) {
		if len(b) < 2 || !rng(b[1], 0x80, 0xbf) {
			return bad()
		}
		it.pos += 2
		return at, tb.BOr(z(b[0], 4, 6), z(b[1], 5, 0)), true
	}
	if rng(b[0], 0xe0, 0xef) {
		if len(b) < 2 {
			return bad()
		}
		lo := tb.Ite(tb.Eq(b[0], c8(0xe0)), c8(0xa0), c8(0x80))
		hi := tb.Ite(tb.Eq(b[0], c8(0xed)), c8(0x9f), c8(0xbf))
		if !in.branch(tb.And(tb.Ule(lo, b[1]), tb.Ule(b[1], hi))) {
			return bad()
		}
		if len(b) < 3 || !rng(b[2], 0x80, 0xbf) {
			return bad()
		}
		it.pos += 3
		return at, tb.BOr(z(b[0], 3, 12), tb.BOr(z(b[1], 5, 6), z(b[2], 5, 0))), true
	}
	if rng(b[0], 0xf0, 0xf4) {
		if len(b) < 2 {
			return bad()
		}
		lo := tb.Ite(tb.Eq(b[0], c8(0xf0)), c8(0x90), c8(0x80))
		hi := tb.Ite(tb.Eq(b[0], c8(0xf4)), c8(0x8f), c8(0xbf))
		if !in.branch(tb.And(tb.Ule(lo, b[1]), tb.Ule(b[1], hi))) {
			return bad()
		}
		if len(b) < 4 || !rng(b[2], 0x80, 0xbf) || !rng(b[3], 0x80, 0xbf) {
			return bad()
		}
		it.pos += 4
		return at, tb.BOr(tb.BOr(z(b[0], 2, 18), z(b[1], 5, 12)), tb.BOr(z(b[2], 5, 6), z(b[3], 5, 0))), true
	}
	return bad()
}

func (in *Interp) next(i *ssa.Next, it *iter) Value {
	tb := in.tb
	if i.IsString {
		at, r, ok := in.nextRune(it)
		if !ok {
			return Tuple{tb.False, tb.BV(64, 0), tb.BV(32, 0)}
		}
		return Tuple{tb.True, tb.BV(64, uint64(at)), r}
	}
	tt := i.Type().(*types.Tuple)
	var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
	mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	for it.m != nil && it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		if in.raceOn {
			in.raceMap(it.m, false)
		}
		// the entry may have been deleted meanwhile
		found := -1
		for j := range it.m.ent {
			if !it.m.ent[j].del && in.sameKey(it.m.ent[j].k, k, mt.Key()) {
				found = j
				break
			}
		}
		if found < 0 {
			continue
		}
		var kv, vv Value = k, it.m.ent[found].v
		if isInvalid(kt) {
			kv = nil
		}
		if isInvalid(vt) {
			vv = nil
		} else {
			vv = in.norm(vv, mt.Elem())
		}
		return Tuple{tb.True, kv, vv}
	}
	return Tuple{tb.False, nil, nil}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (in *Interp) sameKey(a, b Value, t types.Type) bool {
	ca, ok1 := in.ckey(a, t)
	cb, ok2 := in.ckey(b, t)
	if ok1 && ok2 {
		return ca == cb
	}
	if x, ok := a.(*SymStr); ok {
		y, ok := b.(*SymStr)
		return ok && (x == y || in.strEq(x, y) == in.tb.True)
	}
	e := in.eq(a, b, t)
	return e == in.tb.True
}

// permute reorders keys by a chosen permutation (Go map iteration order).
func (in *Interp) permute(keys []Value) {
	for i := 0; i < len(keys)-1; i++ {
		j := i + in.choose(len(keys)-i)
		keys[i], keys[j] = keys[j], keys[i]
	}
}

func (in *Interp) typeAssert(i *ssa.TypeAssert, x Value) Value {
	v, _ := x.(Iface)
	var ok bool
	var res Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.t != nil && in.implements(v.t, it)
		if ok {
			res = v
		} else {
			res = Iface{}
		}
	} else {
		ok = v.t != nil && in.tc.canonical(v.t) == in.tc.canonical(i.AssertedType)
		if ok {
			res = in.norm(v.v, i.AssertedType)
		} else {
			res = in.zero(i.AssertedType)
		}
	}
	if i.CommaOk {
		return Tuple{res, in.tb.Bool(ok)}
	}
	if !ok {
		tn := "nil"
		if v.t != nil {
			tn = v.t.String()
		}
		in.goPanic("interface conversion: interface is " + tn + ", not " + i.AssertedType.String())
	}
	return res
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

var debugTrace = os.Getenv("SYMGO_TRACE") != ""
