package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- visible operations

// A visFunc describes a visible operation before it runs: whether it can run
// now and which shared objects it touches.
type visFunc func(in *Interp, g *Gor, args []Value) visInfo

type visInfo struct {
	enabled bool
	objs    []any
	read    bool // only reads the objects
	yield   bool // a switch away from it costs no preemption
}

type pendOp struct {
	vis  func() visInfo
	name string
}

type schedState struct {
	last   *Gor
	sleep  map[int]bool
	foot   map[any]bool // objects touched by the running transition; true = write
	bound  int          // preemption bound, -1 = none (sleep sets)
	left   int
	serial bool // one schedule from here on
	moves  int
	trace  []string
	maxTr  int
}

func (in *Interp) touch(o any, write bool) {
	if in.sched != nil && in.sched.foot != nil {
		in.sched.foot[o] = in.sched.foot[o] || write
	}
}

// visReady reports whether the call may run now. If not, the goroutine waits
// for the scheduler.
func (in *Interp) visReady(g *Gor, fn *Closure, args []Value) bool {
	if fn == nil || fn.fn == nil {
		if fn != nil && fn.bi != nil && fn.bi.Name() == "close" {
			return in.visOp(g, "close", func() visInfo { return visInfo{enabled: true, objs: []any{args[0]}} })
		}
		return true
	}
	h := in.hookOf(fn.fn)
	if h.vis == nil {
		return true
	}
	return in.visOp(g, fn.fn.Name(), func() visInfo { return h.vis(in, g, args) })
}

func (in *Interp) visOp(g *Gor, name string, vis func() visInfo) bool {
	if in.noSched || g.atomic > 0 {
		return true
	}
	if in.merging {
		panic(mergeAbort{})
	}
	if g.grant {
		g.grant = false
		g.pend = nil
		return true
	}
	g.pend = &pendOp{vis: vis, name: name}
	return false
}

func (in *Interp) spawn(g *Gor, fn *Closure, args []Value) *Gor {
	if in.noSched {
		panic(unsupported("go statement during package initialisation"))
	}
	if fn == nil {
		in.goPanic("go of nil func value")
	}
	n := &Gor{id: len(in.gors)}
	if fn.fn != nil {
		n.name = shortName(fn.fn.String())
	}
	in.gors = append(in.gors, n)
	if len(in.gors) > 64 {
		panic(pathEnd{"incomplete", "too many goroutines"})
	}
	in.multi = true
	if in.cfg.race && !in.raceOn {
		in.raceOn = true
	}
	n.vc = make([]int, len(in.gors))
	copy(n.vc, g.vc)
	n.vc[n.id] = 1
	in.vcTick(g)
	cur := in.cur
	in.cur = n
	defer func() { in.cur = cur }()
	if fn.bi != nil || fn.host != nil || in.hookOf(fn.fn).f != nil {
		// run builtins and intrinsics through a tiny wrapper frame
		n.wrap = &deferred{fn: fn, args: args}
		return n
	}
	in.invoke(n, fn, args, -1, nil)
	return n
}

// runSched drives all goroutines until main finishes.
func (in *Interp) runSched() {
	main := in.gors[0]
	s := &schedState{bound: in.cfg.preempt, left: in.cfg.preempt, sleep: map[int]bool{}}
	if in.cfg.preempt < 0 {
		s.left = 1 << 30
	}
	in.sched = s
	for {
		// run everything invisible
		for progress := true; progress; {
			progress = false
			for i := 0; i < len(in.gors); i++ {
				g := in.gors[i]
				if g.done || g.parked || (g.pend != nil && !g.grant) {
					continue
				}
				if g.wrap != nil {
					w := g.wrap
					g.wrap = nil
					in.cur = g
					if pushed, _ := in.invoke(g, w.fn, w.args, -1, nil); !pushed {
						g.done = true
						continue
					}
				}
				in.step(g)
				progress = true
			}
			if main.done {
				return
			}
		}
		// update sleep set with the transition that just ran
		if s.foot != nil && len(s.sleep) > 0 {
			for id := range s.sleep {
				g := in.gors[id]
				if g.pend == nil {
					delete(s.sleep, id)
					continue
				}
				if dependent(s.foot, g.pend.vis()) {
					delete(s.sleep, id)
				}
			}
		}
		var en []*Gor
		waiting := 0
		for _, g := range in.gors {
			if g.done {
				continue
			}
			if g.parked {
				waiting++
				continue
			}
			if g.pend == nil {
				continue
			}
			if g.pend.vis().enabled {
				en = append(en, g)
			} else {
				waiting++
			}
		}
		if len(en) == 0 {
			if in.fireTimer() {
				continue
			}
			in.deadlock()
		}
		// quiesce operations only run when nothing else can
		var act []*Gor
		for _, g := range en {
			if g.pend.name != "Quiesce" {
				act = append(act, g)
			}
		}
		if len(act) == 0 {
			act = en[:1]
		}
		if tm := in.timersPending(); tm && len(en) > 0 && act[0].pend.name == "Quiesce" {
			if in.fireTimer() {
				continue
			}
		}
		var pick *Gor
		if len(act) == 1 {
			pick = act[0]
			if s.sleep[pick.id] {
				panic(pathEnd{"sleep", ""})
			}
		} else if s.serial {
			// the last goroutine while it can go on, then the others in turn
			i := 0
			for i < len(act) && act[i].id <= s.last.id {
				i++
			}
			pick = act[i%len(act)]
			if i > 0 && act[i-1] == s.last && !s.last.pend.vis().yield {
				pick = s.last
			}
			if s.sleep[pick.id] {
				panic(pathEnd{"sleep", ""})
			}
		} else if s.bound >= 0 {
			// preemption bounded, last goroutine first, then the others in turn
			var cand []*Gor
			lastEn := false
			if s.last != nil {
				i := 0
				for i < len(act) && act[i].id <= s.last.id {
					i++
				}
				act = append(append([]*Gor(nil), act[i:]...), act[:i]...)
			}
			for _, g := range act {
				if g == s.last {
					lastEn = true
				}
			}
			// A goroutine preempted before an operation sleeps until something
			// dependent has happened: resuming it earlier is equivalent to
			// having preempted it after that operation, at the same price.
			if lastEn && !s.last.pend.vis().yield {
				cand = append(cand, s.last)
				if s.left > 0 {
					for _, g := range act {
						if g != s.last && !s.sleep[g.id] {
							cand = append(cand, g)
						}
					}
				}
				if in.cfg.delay && len(cand) > s.left+1 {
					cand = cand[:s.left+1]
				}
				k := in.choose(len(cand))
				pick = cand[k]
				if k > 0 {
					if in.cfg.delay {
						s.left -= k
					} else {
						s.left--
					}
					s.sleep[s.last.id] = true
				}
			} else {
				for _, g := range act {
					if !s.sleep[g.id] {
						cand = append(cand, g)
					}
				}
				if len(cand) == 0 {
					panic(pathEnd{"sleep", ""})
				}
				if in.cfg.delay && len(cand) > s.left+1 {
					cand = cand[:s.left+1]
				}
				k := in.choose(len(cand))
				pick = cand[k]
				if in.cfg.delay {
					s.left -= k
				}
			}
			delete(s.sleep, pick.id)
		} else {
			var cand []*Gor
			for _, g := range act {
				if !s.sleep[g.id] {
					cand = append(cand, g)
				}
			}
			if len(cand) == 0 {
				panic(pathEnd{"sleep", ""})
			}
			k := in.choose(len(cand))
			pick = cand[k]
			for j := 0; j < k; j++ {
				s.sleep[cand[j].id] = true
			}
			delete(s.sleep, pick.id)
		}
		s.moves++
		if s.moves > in.cfg.maxMoves {
			panic(pathEnd{"incomplete", "schedule step limit"})
		}
		in.w.eng.transitions.Add(1)
		if len(s.trace) < 400 {
			s.trace = append(s.trace, fmt.Sprintf("g%d:%s", pick.id, pick.pend.name))
		}
		s.last = pick
		s.foot = map[any]bool{}
		vi := pick.pend.vis()
		for _, o := range vi.objs {
			in.touch(o, !vi.read)
		}
		pick.grant = true
		in.step(pick)
		if main.done {
			return
		}
	}
}

func dependent(foot map[any]bool, v visInfo) bool {
	for _, o := range v.objs {
		w, ok := foot[o]
		if ok && (w || !v.read) {
			return true
		}
	}
	return false
}

func (in *Interp) deadlock() {
	msg := "deadlock:"
	for _, g := range in.gors {
		if g.done {
			continue
		}
		in.cur = g
		op := "parked"
		if g.pend != nil {
			op = g.pend.name
		}
		msg += fmt.Sprintf(" g%d(%s)%s;", g.id, op, in.where())
	}
	panic(pathEnd{"violation", msg})
}

// ---- vector clocks

func (in *Interp) vcTick(g *Gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func vcJoin(a *[]int, b []int) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, v := range b {
		if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}

func (in *Interp) acquire(g *Gor, vc []int) {
	if in.raceOn {
		vcJoin(&g.vc, vc)
	}
}

func (in *Interp) release(g *Gor, vc *[]int) {
	if in.raceOn {
		vcJoin(vc, g.vc)
		in.vcTick(g)
	}
}

type shadow struct {
	wg, wc int // last writer
	ww     string
	r      []int // clock of last read per goroutine
	rw     string
}

func (in *Interp) raceAccess(o *Obj, off, n int, write bool) {
	g := in.cur
	if g == nil || g.atomic > 0 || o.persist && false {
		return
	}
	if o.noRace {
		return
	}
	if o.shadow == nil {
		o.shadow = make([]*shadow, len(o.cells))
		in.shadowed = append(in.shadowed, o)
	}
	for i := off; i < off+n && i < len(o.shadow); i++ {
		s := o.shadow[i]
		if s == nil {
			s = &shadow{wg: -1}
			o.shadow[i] = s
		}
		in.raceCell(s, g, write, o.name)
	}
}

func (in *Interp) raceMap(m *MapObj, write bool) {
	g := in.cur
	if g == nil || g.atomic > 0 {
		return
	}
	if m.shadow == nil {
		m.shadow = &shadow{wg: -1}
		in.shadowedM = append(in.shadowedM, m)
	}
	in.raceCell(m.shadow, g, write, "map")
}

func (in *Interp) raceCell(s *shadow, g *Gor, write bool, name string) {
	at := func(vc []int, i int) int {
		if i < len(vc) {
			return vc[i]
		}
		return 0
	}
	if in.merging {
		panic(mergeAbort{})
	}
	if s.wg >= 0 && s.wg != g.id && at(g.vc, s.wg) < s.wc {
		in.race(g, s, name, write, "write", s.ww)
	}
	if write {
		for i, c := range s.r {
			if i != g.id && c > 0 && at(g.vc, i) < c {
				in.race(g, s, name, write, "read", s.rw)
			}
		}
		s.wg, s.wc = g.id, at(g.vc, g.id)
		s.ww = in.whereShort()
		s.r = s.r[:0]
		return
	}
	for len(s.r) <= g.id {
		s.r = append(s.r, 0)
	}
	s.r[g.id] = at(g.vc, g.id)
	s.rw = in.whereShort()
}

func (in *Interp) race(g *Gor, s *shadow, name string, write bool, other, at string) {
	k := "read"
	if write {
		k = "write"
	}
	in.violation(fmt.Sprintf("data race on %s: %s in %s, earlier %s in %s", name, k, in.whereShort(), other, at))
}

func (in *Interp) whereShort() string {
	if in.cur == nil || len(in.cur.frames) == 0 {
		return "?"
	}
	return shortName(in.cur.frames[len(in.cur.frames)-1].fi.name)
}

// ---- channels

type waiter struct {
	g   *Gor
	v   Value // value to send
	sel int   // select case or -1
	vc  []int
}

type ChanObj struct {
	id     int
	cap    int
	buf    []Value
	bvc    [][]int
	vc     []int // close / receive clock
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	elem   types.Type
	timer  bool
}

func (in *Interp) newChan(n int, t types.Type) *ChanObj {
	in.objID++
	return &ChanObj{id: in.objID, cap: n, elem: t.Underlying().(*types.Chan).Elem()}
}

func asChan(v Value) *ChanObj {
	c, _ := v.(*ChanObj)
	return c
}

func (in *Interp) chanVis(c *ChanObj) visInfo {
	if c == nil {
		return visInfo{enabled: false}
	}
	return visInfo{enabled: true, objs: []any{c}}
}

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.g.parked && !w.g.woken {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if w.g.parked && !w.g.woken {
			return true
		}
	}
	return false
}

// trySend completes a send if possible.
func (in *Interp) trySend(g *Gor, c *ChanObj, v Value) bool {
	if c.closed {
		in.goPanic("send on closed channel")
	}
	if w := dequeue(&c.recvq); w != nil {
		if in.raceOn {
			vcJoin(&w.g.vc, g.vc)
			vcJoin(&g.vc, w.vc)
			in.vcTick(g)
		}
		w.g.recvV, w.g.recvOK, w.g.selIdx = v, true, w.sel
		w.g.woken = true
		w.g.parked = false
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		if in.raceOn {
			vcJoin(&g.vc, c.vc)
			c.bvc = append(c.bvc, append([]int(nil), g.vc...))
			in.vcTick(g)
		} else {
			c.bvc = append(c.bvc, nil)
		}
		return true
	}
	return false
}

// tryRecv completes a receive if possible.
func (in *Interp) tryRecv(g *Gor, c *ChanObj) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		in.acquire(g, c.bvc[0])
		c.bvc = c.bvc[1:]
		in.release(g, &c.vc)
		if w := dequeue(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			c.bvc = append(c.bvc, w.vc)
			if in.raceOn {
				vcJoin(&w.g.vc, g.vc)
			}
			w.g.selIdx = w.sel
			w.g.woken = true
			w.g.parked = false
		}
		return v, true, true
	}
	if w := dequeue(&c.sendq); w != nil {
		if in.raceOn {
			vcJoin(&g.vc, w.vc)
			vcJoin(&w.g.vc, g.vc)
			in.vcTick(g)
		}
		w.g.selIdx = w.sel
		w.g.woken = true
		w.g.parked = false
		return w.v, true, true
	}
	if c.closed {
		in.acquire(g, c.vc)
		return in.zero(c.elem), false, true
	}
	return nil, false, false
}

func (in *Interp) closeChan(g *Gor, c *ChanObj) {
	if c == nil {
		in.goPanic("close of nil channel")
	}
	if c.closed {
		in.goPanic("close of closed channel")
	}
	in.touch(c, true)
	c.closed = true
	in.release(g, &c.vc)
	for {
		w := dequeue(&c.recvq)
		if w == nil {
			break
		}
		if in.raceOn {
			vcJoin(&w.g.vc, c.vc)
		}
		w.g.recvV, w.g.recvOK, w.g.selIdx = in.zero(c.elem), false, w.sel
		w.g.woken = true
		w.g.parked = false
	}
	for {
		w := dequeue(&c.sendq)
		if w == nil {
			break
		}
		w.g.selIdx = -2 // panic on resume
		w.g.woken = true
		w.g.parked = false
	}
}

func (in *Interp) park(g *Gor) {
	if in.noSched || g.atomic > 0 {
		panic(unsupported("blocking operation in atomic model code" + in.where()))
	}
	g.parked = true
	g.woken = false
}

func (in *Interp) execRecv(g *Gor, f *Frame, ci *cinstr, i *ssa.UnOp) bool {
	c := asChan(in.opv(f, ci.ops[0]))
	var v Value
	var ok bool
	if g.woken {
		g.woken = false
		v, ok = g.recvV, g.recvOK
		g.recvV = nil
	} else {
		if !in.visOp(g, "recv", func() visInfo { return in.chanVis(c) }) {
			return false
		}
		if c == nil {
			panic(unsupported("nil channel receive"))
		}
		var done bool
		v, ok, done = in.tryRecv(g, c)
		if !done {
			c.recvq = append(c.recvq, &waiter{g: g, sel: -1, vc: append([]int(nil), g.vc...)})
			in.park(g)
			return false
		}
	}
	v = in.norm(v, i.X.Type().Underlying().(*types.Chan).Elem())
	if i.CommaOk {
		f.regs[ci.dst] = Tuple{v, in.tb.Bool(ok)}
	} else {
		f.regs[ci.dst] = v
	}
	f.pc++
	return true
}

func (in *Interp) execSend(g *Gor, f *Frame, ci *cinstr, i *ssa.Send) bool {
	if g.woken {
		g.woken = false
		if g.selIdx == -2 {
			in.goPanic("send on closed channel")
		}
		f.pc++
		return true
	}
	c := asChan(in.opv(f, ci.ops[0]))
	if !in.visOp(g, "send", func() visInfo { return in.chanVis(c) }) {
		return false
	}
	v := in.opv(f, ci.ops[1])
	if in.trySend(g, c, v) {
		f.pc++
		return true
	}
	w := &waiter{g: g, v: v, sel: -1}
	if in.raceOn {
		w.vc = append([]int(nil), g.vc...)
		in.vcTick(g)
	}
	c.sendq = append(c.sendq, w)
	in.park(g)
	return false
}

func (in *Interp) execSelect(g *Gor, f *Frame, ci *cinstr, i *ssa.Select) bool {
	// operands: per state: Chan, Send (send only has a value)
	type st struct {
		c    *ChanObj
		send bool
		v    Value
	}
	var sts []st
	k := 0
	for _, s := range i.States {
		x := st{c: asChan(in.opv(f, ci.ops[k])), send: s.Dir == types.SendOnly}
		k++
		if s.Send != nil {
			x.v = in.opv(f, ci.ops[k])
		}
		k++
		sts = append(sts, x)
	}
	idx := -1
	var rv Value
	rok := false
	if g.woken {
		g.woken = false
		if g.selIdx == -2 {
			in.goPanic("send on closed channel")
		}
		idx = g.selIdx
		rv, rok = g.recvV, g.recvOK
		g.recvV = nil
	} else {
		vis := func() visInfo {
			v := visInfo{enabled: i.Blocking == false}
			for _, s := range sts {
				if s.c != nil {
					v.enabled = true
					v.objs = append(v.objs, s.c)
				}
			}
			return v
		}
		if !in.visOp(g, "select", vis) {
			return false
		}
		var ready []int
		for j, s := range sts {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap || live(s.c.recvq) {
					ready = append(ready, j)
				}
			} else if s.c.closed || len(s.c.buf) > 0 || live(s.c.sendq) {
				ready = append(ready, j)
			}
		}
		if len(ready) == 0 {
			if i.Blocking {
				vc := append([]int(nil), g.vc...)
				if in.raceOn {
					in.vcTick(g)
				}
				for j, s := range sts {
					if s.c == nil {
						continue
					}
					w := &waiter{g: g, v: s.v, sel: j, vc: vc}
					if s.send {
						s.c.sendq = append(s.c.sendq, w)
					} else {
						s.c.recvq = append(s.c.recvq, w)
					}
				}
				in.park(g)
				return false
			}
		} else {
			idx = ready[in.choose(len(ready))]
			s := sts[idx]
			if s.send {
				if !in.trySend(g, s.c, s.v) {
					panic("select send")
				}
			} else {
				var done bool
				rv, rok, done = in.tryRecv(g, s.c)
				if !done {
					panic("select recv")
				}
			}
		}
	}
	res := Tuple{in.tb.BV(64, uint64(int64(idx))), in.tb.Bool(rok)}
	for j, s := range i.States {
		if s.Dir == types.RecvOnly {
			if j == idx {
				res = append(res, in.norm(rv, s.Chan.Type().Underlying().(*types.Chan).Elem()))
			} else {
				res = append(res, in.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	f.regs[ci.dst] = res
	f.pc++
	return true
}

// ---- timers: fire at any time after they are armed, when asked to by the
// scheduler choosing the timer goroutine, or when nothing else can run.

type timer struct {
	fn    *Closure
	c     *ChanObj
	armed bool
	val   func() Value
}

func (in *Interp) timersPending() bool {
	for _, t := range in.timers {
		if t.armed {
			return true
		}
	}
	return false
}

func (in *Interp) fireTimer() bool {
	for _, t := range in.timers {
		if t.armed {
			t.armed = false
			g := in.gors[0]
			if t.c != nil {
				cur := in.cur
				in.cur = g
				if !t.c.closed && (len(t.c.buf) < t.c.cap || live(t.c.recvq)) {
					in.trySend(&Gor{id: 0, vc: nil}, t.c, t.val())
				}
				in.cur = cur
			} else {
				in.spawn(g, t.fn, nil)
			}
			return true
		}
	}
	return false
}

// ---- mutexes and friends

type mutexState struct {
	locked  bool
	readers int
	vc      []int
	rvc     []int
	n       int // wait group counter
	cond    []*Gor
	pool    []Value
	once    int
}

func (in *Interp) mutex(p Value) *mutexState {
	k := in.toPtr(p)
	if k.o == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	m := in.mutexes[k]
	if m == nil {
		m = &mutexState{}
		in.mutexes[k] = m
	}
	return m
}

func (in *Interp) goroutinesAlive() []*Gor {
	var out []*Gor
	for _, g := range in.gors[1:] {
		if !g.done {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
