package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) intv(n int) *Term { return in.tb.BV(64, uint64(int64(n))) }

func (in *Interp) builtin(g *Gor, b *ssa.Builtin, args []Value, site *cinstr) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return in.intv(x.len)
		case string, *SymStr:
			return in.intv(strLen(x))
		case *MapObj:
			if x == nil {
				return in.intv(0)
			}
			if in.raceOn {
				in.raceMap(x, false)
			}
			return in.intv(x.n)
		case *ChanObj:
			if x == nil {
				return in.intv(0)
			}
			return in.intv(len(x.buf))
		case nil:
			return in.intv(0)
		case Agg, Ptr:
			t := b.Type().(*types.Signature).Params().At(0).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			return in.intv(int(t.Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return in.intv(x.cap)
		case *ChanObj:
			if x == nil {
				return in.intv(0)
			}
			return in.intv(x.cap)
		case nil:
			return in.intv(0)
		case Agg, Ptr:
			t := b.Type().(*types.Signature).Params().At(0).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			return in.intv(int(t.Underlying().(*types.Array).Len()))
		}
	case "append":
		return in.doAppend(b, args)
	case "copy":
		return in.doCopy(b, args)
	case "delete":
		m, _ := args[0].(*MapObj)
		mt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map)
		in.mapDelete(m, args[1], mt.Key())
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				if in.raceOn {
					in.raceMap(x, true)
				}
				in.mapJournal(x)
				x.ent, x.idx, x.n, x.symk = nil, map[any]int{}, 0, false
			}
		case Slice:
			t := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			n := in.tc.size(t)
			if x.o != nil && in.raceOn {
				in.raceAccess(x.o, x.off, x.len*n, true)
			}
			for i := 0; i < x.len*n; i++ {
				in.setCell(x.o, x.off+i, nil)
			}
		}
		return nil
	case "close":
		in.closeChan(g, asChan(args[0]))
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(goPanicSignal{msg: in.panicMsg(v), v: &v})
	case "print", "println":
		return nil
	case "recover":
		return in.doRecover(g, in.top(g))
	case "min", "max":
		acc := args[0]
		for _, a := range args[1:] {
			x, ok := acc.(*Term)
			if !ok {
				lt := in.strLess(a, acc)
				if b.Name() == "max" {
					lt = in.strLess(acc, a)
				}
				if in.branch(lt) {
					acc = a
				}
				continue
			}
			y := a.(*Term)
			t := b.Type().(*types.Signature).Params().At(0).Type()
			var lt *Term
			switch {
			case x.sort == SF64 || x.sort == SF32:
				nan := in.tb.Or(in.tb.FIsNaN(x), in.tb.FIsNaN(y))
				lt = in.tb.FCmp(OpFLt, y, x)
				if b.Name() == "max" {
					lt = in.tb.FCmp(OpFLt, x, y)
				}
				acc = in.tb.Ite(nan, in.tb.fconst(x.sort, nanv()), in.tb.Ite(lt, y, x))
				continue
			case isSigned(t):
				lt = in.tb.Slt(y, x)
				if b.Name() == "max" {
					lt = in.tb.Slt(x, y)
				}
			default:
				lt = in.tb.Ult(y, x)
				if b.Name() == "max" {
					lt = in.tb.Ult(x, y)
				}
			}
			acc = in.tb.Ite(lt, y, x)
		}
		return acc
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			in.goPanic("value method called using nil pointer")
		}
		if args[0] == nil {
			in.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "Add": // unsafe.Add
		p := in.toPtr(args[0])
		n := int(in.concInt(args[1].(*Term)))
		if n == 0 {
			return p
		}
		return in.addrToPtr(in.ptrToAddr(p) + uint64(n))
	case "SliceData":
		s, _ := args[0].(Slice)
		return Ptr{s.o, s.off}
	case "StringData":
		s := in.strToBytes(args[0])
		return Ptr{s.o, s.off}
	case "String":
		n := int(in.concInt(args[1].(*Term)))
		p := in.toPtr(args[0])
		if p.o == nil || n == 0 {
			return ""
		}
		return in.bytesToStr(Slice{p.o, p.off, n, n})
	case "Slice":
		n := int(in.concInt(args[1].(*Term)))
		p := in.toPtr(args[0])
		if p.o == nil {
			return Slice{}
		}
		return Slice{p.o, p.off, n, n}
	case "complex", "real", "imag":
		panic(unsupported("complex numbers"))
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0])))
}

func (in *Interp) doAppend(b *ssa.Builtin, args []Value) Value {
	s, _ := args[0].(Slice)
	st := b.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice)
	n := in.tc.size(st.Elem())
	var src []Value
	cnt := 0
	switch y := args[1].(type) {
	case Slice:
		cnt = y.len
		if cnt > 0 {
			in.checkLive(y.o)
			if in.raceOn {
				in.raceAccess(y.o, y.off, cnt*n, false)
			}
			src = append([]Value(nil), y.o.cells[y.off:y.off+cnt*n]...)
		}
	case string, *SymStr:
		for _, t := range in.strBytes(y) {
			src = append(src, t)
		}
		cnt = len(src)
	case nil:
	default:
		panic(unsupported(fmt.Sprintf("append %T", y)))
	}
	if cnt == 0 {
		return s
	}
	need := s.len + cnt
	if s.o != nil && need <= s.cap {
		in.checkLive(s.o)
		in.writeCells(s.o, s.off+s.len*n, src)
		return Slice{s.o, s.off, need, s.cap}
	}
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+768)/4
	}
	if nc < need {
		nc = need
	}
	if n == 1 && nc < 8 {
		nc = 8
	}
	if nc > in.cfg.maxAlloc*4 {
		in.violation(fmt.Sprintf("alloc: append grows beyond %d elements", in.cfg.maxAlloc*4))
	}
	o := in.newObj(nc*n, "append")
	if s.o != nil {
		in.checkLive(s.o)
		if in.raceOn {
			in.raceAccess(s.o, s.off, s.len*n, false)
		}
		copy(o.cells, s.o.cells[s.off:s.off+s.len*n])
	}
	copy(o.cells[s.len*n:], src)
	return Slice{o, 0, need, nc}
}

// writeCells stores a run of cells (copy, append), which is a sequence of
// separate stores for crash purposes.
func (in *Interp) writeCells(o *Obj, off int, src []Value) {
	if len(src) == 0 {
		return
	}
	if in.raceOn {
		in.raceAccess(o, off, len(src), true)
	}
	if o.crash && in.crashOn {
		in.crashCopy(o, off, src)
	}
	for i, v := range src {
		in.setCell(o, off+i, v)
	}
}

func (in *Interp) doCopy(b *ssa.Builtin, args []Value) Value {
	d, _ := args[0].(Slice)
	dt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
	n := in.tc.size(dt.Elem())
	var src []Value
	switch y := args[1].(type) {
	case Slice:
		c := min(d.len, y.len)
		if c == 0 {
			return in.intv(0)
		}
		in.checkLive(y.o)
		if in.raceOn {
			in.raceAccess(y.o, y.off, c*n, false)
		}
		src = append([]Value(nil), y.o.cells[y.off:y.off+c*n]...)
	case string, *SymStr:
		c := min(d.len, strLen(y))
		for _, t := range in.strBytes(y)[:c] {
			src = append(src, t)
		}
	case nil:
		return in.intv(0)
	}
	if len(src) == 0 {
		return in.intv(0)
	}
	in.checkLive(d.o)
	in.writeCells(d.o, d.off, src)
	return in.intv(len(src) / max(n, 1))
}

// ---- crash points

type crashSignal struct{ g *Gor }

func (in *Interp) crashPoint(what string) {
	if !in.crashOn || in.merging && false {
		return
	}
	if in.merging {
		panic(mergeAbort{})
	}
	in.crashN++
	k := in.crashN
	if in.choose(2) == 1 {
		in.notes = append(in.notes, fmt.Sprintf("crash before %s (point %d)%s", what, k, in.where()))
		panic(crashSignal{in.cur})
	}
}

func (in *Interp) crashCopy(o *Obj, off int, src []Value) {
	if in.merging {
		panic(mergeAbort{})
	}
	in.crashN++
	k := in.crashN
	if in.choose(2) == 0 {
		return
	}
	// a prefix of unknown length is stored
	in.notes = append(in.notes, fmt.Sprintf("crash inside a %d byte copy to %s (point %d)%s", len(src), o.name, k, in.where()))
	cut := in.newInput(fmt.Sprintf("crashcut%d", k), 16, "uint")
	in.assume(in.tb.Ult(cut, in.tb.BV(16, uint64(len(src)))))
	for i, v := range src {
		nv, ok := in.mergeVal(in.tb.Ult(in.tb.BV(16, uint64(i)), cut), v, o.cells[off+i])
		if !ok {
			panic(unsupported("crash copy of non scalar"))
		}
		in.setCell(o, off+i, nv)
	}
	panic(crashSignal{in.cur})
}

// newInput declares a symbolic input.
func (in *Interp) newInput(name string, sort uint16, kind string) *Term {
	n := in.names[name]
	in.names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	name = strings.ReplaceAll(name, "|", "_")
	t := in.tb.Var(name, sort)
	in.inputs = append(in.inputs, inputVar{name, t, kind})
	return t
}
