package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a symbolic branch whose two sides only compute values and
// rejoin at the immediate post-dominator is executed on both sides and merged
// with if-then-else terms, instead of forking the path.

type mergeInfo struct {
	join  int
	chain bool // condition chain: the then/else block shares a successor
}

type mergeAbort struct{}

func mergeOK(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr,
		*ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Store, *ssa.If, *ssa.Jump, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.DebugRef, *ssa.Slice:
		return true
	case *ssa.UnOp:
		return i.Op != token.ARROW
	case *ssa.Lookup:
		return true
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
		}
		if fn, ok := i.Call.Value.(*ssa.Function); ok {
			switch fn.String() {
			case "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits", "math.IsNaN", "math.IsInf", "math.Floor", "math.Abs":
				return true
			}
		}
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		if !mergeOK(i) {
			return false
		}
	}
	return true
}

// postdoms computes immediate post-dominators (-1 = exit).
func postdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// sets as bitsets
	words := (n + 63) / 64
	pd := make([][]uint64, n)
	full := make([]uint64, words)
	for i := 0; i < n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := make([]uint64, words)
			if len(b.Succs) > 0 {
				copy(nw, pd[b.Succs[0].Index])
				for _, s := range b.Succs[1:] {
					for w := range nw {
						nw[w] &= pd[s.Index][w]
					}
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					pd[i] = nw
					changed = true
					break
				}
			}
		}
	}
	has := func(s []uint64, i int) bool { return s[i/64]&(1<<(i%64)) != 0 }
	out := make([]int, n)
	for i := range out {
		out[i] = -1
		for j := 0; j < n; j++ {
			if j == i || !has(pd[i], j) {
				continue
			}
			// j is immediate if every other strict postdominator of i postdominates j
			ok := true
			for k := 0; k < n; k++ {
				if k != i && k != j && has(pd[i], k) && !has(pd[j], k) {
					ok = false
					break
				}
			}
			if ok {
				out[i] = j
				break
			}
		}
	}
	return out
}

func (in *Interp) findMerges(fi *fnInfo) {
	if len(fi.fn.Blocks) > 600 {
		return
	}
	var pd []int
	for bi, b := range fi.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		if pd == nil {
			pd = postdoms(fi.fn)
		}
		j := pd[bi]
		if j >= 0 {
			// region must be acyclic, small and pure
			ok := true
			state := map[int]int{}
			var visit func(x *ssa.BasicBlock)
			visit = func(x *ssa.BasicBlock) {
				if !ok || x.Index == j || state[x.Index] == 2 {
					return
				}
				if state[x.Index] == 1 || x.Index == bi || len(state) > 24 || !pureBlock(x) {
					ok = false
					return
				}
				state[x.Index] = 1
				for _, s := range x.Succs {
					visit(s)
				}
				state[x.Index] = 2
			}
			for _, s := range b.Succs {
				visit(s)
			}
			if ok {
				fi.merge[bi] = &mergeInfo{join: j}
				continue
			}
		}
		// condition chains
		for k, s := range b.Succs {
			o := b.Succs[1-k]
			if len(s.Preds) != 1 || s == o || !pureBlock(s) || s.Index == bi {
				continue
			}
			if _, isIf := s.Instrs[len(s.Instrs)-1].(*ssa.If); !isIf {
				continue
			}
			if s.Succs[0] == o || s.Succs[1] == o {
				fi.merge[bi] = &mergeInfo{join: -1, chain: true}
			}
		}
	}
}

type undoEnt struct {
	o   *Obj
	off int
	old Value
}

// runSide executes from succ to join; it reports success.
func (in *Interp) runSide(g *Gor, f *Frame, from, to, join int) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, goPanicSignal, pathEnd, unsupportedErr:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	f.prev = from
	f.block = to
	f.pc = 0
	in.phis(f)
	for f.block != join {
		in.steps++
		if !in.exec(g, f, &f.fi.blocks[f.block][f.pc]) {
			return false
		}
	}
	return true
}

func (in *Interp) undoTo(n int) (log []undoEnt) {
	log = append(log, in.undo[n:]...)
	for i := len(in.undo) - 1; i >= n; i-- {
		u := in.undo[i]
		u.o.cells[u.off] = u.old
	}
	in.undo = in.undo[:n]
	return log
}

func (in *Interp) tryMerge(g *Gor, f *Frame, c *Term, mi *mergeInfo) bool {
	if mi.chain {
		return in.tryChain(g, f, c)
	}
	if in.pcSet[c] || in.pcSet[in.tb.Not(c)] {
		return false
	}
	blk, prev, pc := f.block, f.prev, f.pc
	b := f.fi.fn.Blocks[blk]
	outer := in.merging
	mc := len(in.mergeConds)
	base := len(in.undo)
	in.merging = true
	njoin := 0
	jb := f.fi.blocks[mi.join]
	for njoin < len(jb) {
		if _, ok := jb[njoin].in.(*ssa.Phi); !ok {
			break
		}
		njoin++
	}
	getPhis := func() []Value {
		out := make([]Value, njoin)
		for i := range out {
			out[i] = f.regs[jb[i].dst]
		}
		return out
	}
	// the join may be a loop header: its phis are live inside the region
	p0 := getPhis()
	putPhis := func() {
		for i, v := range p0 {
			f.regs[jb[i].dst] = v
		}
	}
	restore := func() {
		in.undoTo(base)
		in.mergeConds = in.mergeConds[:mc]
		in.merging = outer
		f.block, f.prev, f.pc = blk, prev, pc
		putPhis()
	}
	steps := f.steps
	type wr struct {
		o   *Obj
		off int
	}
	collect := func() map[wr]Value {
		m := map[wr]Value{}
		for _, u := range in.undo[base:] {
			m[wr{u.o, u.off}] = u.o.cells[u.off]
		}
		return m
	}
	in.mergeConds = append(in.mergeConds[:mc], c)
	if !in.runSide(g, f, blk, b.Succs[0].Index, mi.join) {
		restore()
		f.steps = steps
		return false
	}
	w1 := collect()
	p1 := getPhis()
	in.undoTo(base)
	putPhis()
	in.mergeConds = append(in.mergeConds[:mc], in.tb.Not(c))
	if !in.runSide(g, f, blk, b.Succs[1].Index, mi.join) {
		restore()
		return false
	}
	w2 := collect()
	p2 := getPhis()
	in.undoTo(base)
	// merge
	phis := make([]Value, njoin)
	for i := range phis {
		v, ok := in.mergeVal(c, p1[i], p2[i])
		if !ok {
			restore()
			return false
		}
		phis[i] = v
	}
	type res struct {
		k wr
		v Value
	}
	var out []res
	for k, v := range w1 {
		o, both := w2[k]
		if !both {
			o = k.o.cells[k.off]
		}
		m, ok := in.mergeVal(c, v, o)
		if !ok {
			restore()
			return false
		}
		out = append(out, res{k, m})
	}
	for k, v := range w2 {
		if _, both := w1[k]; both {
			continue
		}
		m, ok := in.mergeVal(c, k.o.cells[k.off], v)
		if !ok {
			restore()
			return false
		}
		out = append(out, res{k, m})
	}
	in.mergeConds = in.mergeConds[:mc]
	in.merging = outer
	for _, r := range out {
		in.setCell(r.k.o, r.k.off, r.v)
	}
	for i := range phis {
		f.regs[jb[i].dst] = phis[i]
	}
	f.block = mi.join
	f.pc = njoin
	in.w.merges++
	return true
}

// tryChain handles `if a && b` / `if a || b` without a join: the two
// conditions are combined into one decision.
func (in *Interp) tryChain(g *Gor, f *Frame, c *Term) bool {
	blk, prev, pc := f.block, f.prev, f.pc
	b := f.fi.fn.Blocks[blk]
	outer := in.merging
	mc := len(in.mergeConds)
	base := len(in.undo)
	for k := 0; k < 2; k++ {
		s, o := b.Succs[k], b.Succs[1-k]
		if len(s.Preds) != 1 || s == o || !(s.Succs != nil && len(s.Succs) == 2 && (s.Succs[0] == o || s.Succs[1] == o)) || !pureBlock(s) {
			continue
		}
		var x *ssa.BasicBlock // the other target
		oi := 0
		if s.Succs[0] == o {
			x = s.Succs[1]
		} else {
			x = s.Succs[0]
			oi = 1
		}
		if x == o {
			continue
		}
		cc := c
		if k == 1 {
			cc = in.tb.Not(c)
		}
		// cc: go to s
		in.merging = true
		in.mergeConds = append(in.mergeConds[:mc], cc)
		var d *Term
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case mergeAbort, goPanicSignal, pathEnd, unsupportedErr:
						ok = false
					default:
						panic(r)
					}
				}
			}()
			f.prev, f.block, f.pc = blk, s.Index, 0
			in.phis(f)
			bl := f.fi.blocks[s.Index]
			for f.pc < len(bl)-1 {
				in.steps++
				if !in.exec(g, f, &bl[f.pc]) {
					return false
				}
			}
			d = in.opv(f, bl[f.pc].ops[0]).(*Term)
			return true
		}()
		in.mergeConds = in.mergeConds[:mc]
		in.merging = outer
		if !ok || len(in.undo) > base {
			in.undoTo(base)
			f.block, f.prev, f.pc = blk, prev, pc
			continue
		}
		// phis of o must agree on both edges
		same1 := true
		ob := f.fi.blocks[o.Index]
		e1, e2 := f.fi.pred[o.Index][blk], f.fi.pred[o.Index][s.Index]
		for _, pi := range ob {
			if _, isPhi := pi.in.(*ssa.Phi); !isPhi {
				break
			}
			v, okm := in.mergeVal(cc, in.opv(f, pi.ops[e2]), in.opv(f, pi.ops[e1]))
			_ = v
			if !okm || !sameVal(in.opv(f, pi.ops[e1]), in.opv(f, pi.ops[e2])) {
				same1 = false
				break
			}
		}
		if !same1 {
			f.block, f.prev, f.pc = blk, prev, pc
			continue
		}
		toX := d
		if oi == 0 {
			toX = in.tb.Not(d)
		}
		toX = in.tb.And(cc, toX)
		f.block = s.Index
		f.pc = len(f.fi.blocks[s.Index]) - 1
		// chains of more than two conditions: o-target fixed, x may itself chain
		if in.branch(toX) {
			in.jump(f, x.Index)
		} else {
			in.jump(f, o.Index)
		}
		return true
	}
	f.block, f.prev, f.pc = blk, prev, pc
	return false
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && same(x, y)
	case Agg, Tuple:
		return false
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && sameVal(x.v, y.v)
	}
	switch b.(type) {
	case Agg, Tuple, Iface:
		return false
	}
	return a == b
}

func (in *Interp) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		if b == nil {
			return in.tb.Ite(c, x, in.zeroSort(x.sort)), true
		}
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return in.tb.Ite(c, x, y), true
	case nil:
		switch y := b.(type) {
		case nil:
			return nil, true
		case *Term:
			return in.tb.Ite(c, in.zeroSort(y.sort), y), true
		case Ptr:
			if y.o == nil {
				return y, true
			}
		case string:
			if y == "" {
				return y, true
			}
		case Slice:
			if y.o == nil {
				return y, true
			}
		}
		return nil, false
	case string, *SymStr:
		switch b.(type) {
		case string, *SymStr:
		default:
			return nil, false
		}
		if xs, ok := a.(string); ok {
			if ys, ok := b.(string); ok && xs == ys {
				return a, true
			}
		}
		if strLen(a) != strLen(b) {
			return nil, false
		}
		xb, yb := in.strBytes(a), in.strBytes(b)
		out := make([]*Term, len(xb))
		for i := range out {
			out[i] = in.tb.Ite(c, xb[i], yb[i])
		}
		return mkStr(out), true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := in.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := in.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t == nil != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		if in.tc.canonical(x.t) != in.tc.canonical(y.t) {
			return nil, false
		}
		v, ok := in.mergeVal(c, x.v, y.v)
		return Iface{x.t, v}, ok
	}
	switch b.(type) {
	case Agg, Tuple, Iface, nil:
		return nil, false
	}
	if a == b {
		return a, true
	}
	return nil, false
}

func (in *Interp) zeroSort(s uint16) *Term {
	switch s {
	case SBool:
		return in.tb.False
	case SF64, SF32:
		return in.tb.fconst(s, 0)
	}
	return in.tb.BV(s, 0)
}

// mergeImplied decides a condition inside a speculative region if it is
// implied there; otherwise the speculation is abandoned.
func (in *Interp) mergeImplied(c *Term) bool {
	g := c
	for _, m := range in.mergeConds {
		if m == c {
			return true
		}
		if m == in.tb.Not(c) {
			return false
		}
	}
	as := append([]*Term(nil), in.mergeConds...)
	all := in.tb.True
	for _, m := range as {
		all = in.tb.And(all, m)
	}
	q := in.tb.And(all, in.tb.Not(g))
	if q.isConst() {
		if q.val == 0 {
			return true
		}
	} else {
		// cheap refutation by the current model first
		if in.evalModel(q) != 1 {
			if r, _ := in.solve(q); r == Unsat {
				return true
			}
		}
	}
	q = in.tb.And(all, g)
	if q.isConst() {
		if q.val == 0 {
			return false
		}
	} else if in.evalModel(q) != 1 {
		if r, _ := in.solve(q); r == Unsat {
			return false
		}
	}
	panic(mergeAbort{})
}
