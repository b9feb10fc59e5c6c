package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func nanv() float64 { return math.NaN() }

const zzPath = "github.com/vivint/rothko/internal/zzverif"
const modelPath = "github.com/vivint/rothko/internal/zzmodel"

var hookTab = map[string]*hookInfo{}

func hook(name string, f intrinsic)               { hookTab[name] = &hookInfo{f: f} }
func vhook(name string, v visFunc, f intrinsic)   { hookTab[name] = &hookInfo{f: f, vis: v} }
func nop(in *Interp, g *Gor, c *icall) Value      { return nil }
func zeroRes(in *Interp, g *Gor, c *icall) Value { return in.zeroResult(c.fn) }

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

// packages whose functions are all replaced by functions returning zero values
var nopPkgs = map[string]bool{
	"log": true, "go.uber.org/zap": true, "go.uber.org/zap/zapcore": true, "github.com/gogo/protobuf/proto": true,
	"runtime/debug": true, "internal/race": true, "internal/godebug": true, "internal/bisect": true,
	"internal/asan": true, "internal/msan": true, "internal/synctest": true,
}

func (e *Engine) findHook(fn *ssa.Function, cfg *Config) *hookInfo {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if strings.HasPrefix(name, "internal/godebug.") || strings.HasPrefix(name, "(*internal/godebug.") {
		if h, ok := hookTab[name]; ok {
			return h
		}
		return &hookInfo{f: zeroRes}
	}
	if fn.Synthetic == "package initializer" {
		return &hookInfo{f: zeroRes} // initialisers run lazily, when a global is first used
	}
	if h, ok := e.redirs[name]; ok && (h.only == "" || cfg.models[h.only]) {
		return h
	}
	if h, ok := hookTab[name]; ok {
		return h
	}
	if fn.Pkg != nil && nopPkgs[fn.Pkg.Pkg.Path()] {
		return &hookInfo{f: zeroRes}
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "wrapper for") || fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		return &hookInfo{}
	}
	return &hookInfo{}
}

// arg helpers
func (c *icall) t(i int) *Term { return c.args[i].(*Term) }

func (in *Interp) sliceOf(v Value) Slice { s, _ := v.(Slice); return s }

func (in *Interp) bytesOf(s Slice) []*Term {
	if s.len == 0 {
		return nil
	}
	in.checkLive(s.o)
	if in.raceOn {
		in.raceAccess(s.o, s.off, s.len, false)
	}
	b := make([]*Term, s.len)
	for i := range b {
		b[i] = in.byteCell(s.o, s.off+i)
	}
	return b
}

// bytesOrStr reads []byte or string arguments.
func (in *Interp) bytesOrStr(v Value) []*Term {
	if s, ok := v.(Slice); ok {
		return in.bytesOf(s)
	}
	return in.strBytes(v)
}

func mutexVis(in *Interp, g *Gor, args []Value) visInfo {
	p := in.toPtr(args[0])
	if p.o == nil {
		return visInfo{enabled: true}
	}
	m := in.mutex(args[0])
	return visInfo{enabled: !m.locked && m.readers == 0, objs: []any{p}}
}

func objVis(in *Interp, g *Gor, args []Value) visInfo {
	return visInfo{enabled: true, objs: []any{in.toPtr(args[0])}}
}

func objReadVis(in *Interp, g *Gor, args []Value) visInfo {
	return visInfo{enabled: true, objs: []any{in.toPtr(args[0])}, read: true}
}

func (in *Interp) rawLoad(p Value, t types.Type) Value {
	q := in.toPtr(p)
	if q.o == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	return in.norm(q.o.cells[q.off], t)
}

func (in *Interp) rawStore(p Value, v Value) {
	q := in.toPtr(p)
	if q.o == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	in.setCell(q.o, q.off, v)
}

// atomSync gives atomic operations acquire/release semantics.
func (in *Interp) atomSync(g *Gor, p Value, write bool) {
	q := in.toPtr(p)
	in.touch(q, write)
	if !in.raceOn {
		return
	}
	vc := in.atomVC[q]
	if vc == nil {
		vc = &[]int{}
		in.atomVC[q] = vc
	}
	in.acquire(g, *vc)
	if write {
		in.release(g, vc)
	}
}

func init() {
	// ---- sync
	vhook("(*sync.Mutex).Lock", mutexVis, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.locked {
			panic(pathEnd{"violation", "deadlock: lock of a locked mutex" + in.where()})
		}
		m.locked = true
		in.acquire(g, m.vc)
		return nil
	})
	vhook("(*sync.Mutex).TryLock", objVis, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.locked {
			return in.tb.False
		}
		m.locked = true
		in.acquire(g, m.vc)
		return in.tb.True
	})
	hook("(*sync.Mutex).Unlock", func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if !m.locked {
			in.violation("fatal error: sync: unlock of unlocked mutex")
		}
		in.touch(in.toPtr(c.args[0]), true)
		m.locked = false
		in.release(g, &m.vc)
		return nil
	})
	vhook("(*sync.RWMutex).Lock", mutexVis, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.locked || m.readers > 0 {
			panic(pathEnd{"violation", "deadlock: lock of a locked rwmutex" + in.where()})
		}
		m.locked = true
		in.acquire(g, m.vc)
		in.acquire(g, m.rvc)
		return nil
	})
	hook("(*sync.RWMutex).Unlock", func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if !m.locked {
			in.violation("fatal error: sync: Unlock of unlocked RWMutex")
		}
		in.touch(in.toPtr(c.args[0]), true)
		m.locked = false
		in.release(g, &m.vc)
		return nil
	})
	vhook("(*sync.RWMutex).RLock", func(in *Interp, g *Gor, args []Value) visInfo {
		m := in.mutex(args[0])
		return visInfo{enabled: !m.locked, objs: []any{in.toPtr(args[0])}}
	}, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.locked {
			panic(pathEnd{"violation", "deadlock: rlock of a locked rwmutex" + in.where()})
		}
		m.readers++
		in.acquire(g, m.vc)
		return nil
	})
	hook("(*sync.RWMutex).RUnlock", func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.readers == 0 {
			in.violation("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		in.touch(in.toPtr(c.args[0]), true)
		m.readers--
		in.release(g, &m.rvc)
		return nil
	})
	vhook("(*sync.WaitGroup).Add", objVis, func(in *Interp, g *Gor, c *icall) Value {
		return in.wgAdd(g, c.args[0], int(in.concInt(c.t(1))))
	})
	hook("(*sync.WaitGroup).Done", func(in *Interp, g *Gor, c *icall) Value { return in.wgAdd(g, c.args[0], -1) })
	vhook("(*sync.WaitGroup).Wait", func(in *Interp, g *Gor, args []Value) visInfo {
		return visInfo{enabled: in.mutex(args[0]).n == 0, objs: []any{in.toPtr(args[0])}}
	}, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if m.n != 0 {
			panic(pathEnd{"violation", "deadlock: wait" + in.where()})
		}
		in.acquire(g, m.vc)
		return nil
	})
	vhook("(*sync.WaitGroup).Go", objVis, func(in *Interp, g *Gor, c *icall) Value {
		in.wgAdd(g, c.args[0], 1)
		wg := c.args[0]
		fn := c.args[1].(*Closure)
		n := in.spawn(g, fn, nil)
		n.frames[0].onRet = func(in *Interp, g *Gor, ret Value) {
			in.wgAdd(g, wg, -1)
			g.done = true
		}
		return nil
	})
	vhook("(*sync.Pool).Get", objVis, func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		if n := len(m.pool); n > 0 {
			v := m.pool[n-1]
			m.pool = m.pool[:n-1:n-1]
			in.acquire(g, m.vc)
			return v
		}
		p := in.toPtr(c.args[0])
		st := c.fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				cl, _ := p.o.cells[p.off+in.tc.fieldOff(st, i)].(*Closure)
				if cl == nil {
					return Iface{}
				}
				_, v := in.invoke(g, cl, nil, c.dst, c.site)
				return v
			}
		}
		return Iface{}
	})
	hook("(*sync.Pool).Put", func(in *Interp, g *Gor, c *icall) Value {
		m := in.mutex(c.args[0])
		in.touch(in.toPtr(c.args[0]), true)
		if v, ok := c.args[1].(Iface); ok && v.t != nil {
			m.pool = append(m.pool, v)
			in.release(g, &m.vc)
		}
		return nil
	})
	hook("sync.runtime_registerPoolCleanup", nop)
	hook("sync.runtime_notifyListCheck", nop)
	hook("sync.throw", func(in *Interp, g *Gor, c *icall) Value { in.violation("fatal error"); return nil })
	hook("sync.fatal", func(in *Interp, g *Gor, c *icall) Value { in.violation("fatal error"); return nil })

	// ---- atomics
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]}, {"Uint32", types.Typ[types.Uint32]},
		{"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]}} {
		t := k.t
		for _, pkg := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			vhook(pkg+"Load"+k.n, objReadVis, func(in *Interp, g *Gor, c *icall) Value {
				v := in.rawLoad(c.args[0], t)
				in.atomSync(g, c.args[0], false)
				return v
			})
			vhook(pkg+"Store"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
				in.rawStore(c.args[0], c.args[1])
				in.atomSync(g, c.args[0], true)
				return nil
			})
			vhook(pkg+"Swap"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
				v := in.rawLoad(c.args[0], t)
				in.rawStore(c.args[0], c.args[1])
				in.atomSync(g, c.args[0], true)
				return v
			})
			vhook(pkg+"CompareAndSwap"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
				v := in.rawLoad(c.args[0], t)
				in.atomSync(g, c.args[0], true)
				if in.branch(in.eq(v, in.norm(c.args[1], t), t)) {
					in.rawStore(c.args[0], c.args[2])
					return in.tb.True
				}
				return in.tb.False
			})
			if k.n != "Pointer" {
				vhook(pkg+"Add"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
					v := in.tb.Add(in.rawLoad(c.args[0], t).(*Term), c.t(1))
					in.rawStore(c.args[0], v)
					in.atomSync(g, c.args[0], true)
					return v
				})
				vhook(pkg+"And"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
					old := in.rawLoad(c.args[0], t).(*Term)
					in.rawStore(c.args[0], in.tb.BAnd(old, c.t(1)))
					in.atomSync(g, c.args[0], true)
					return old
				})
				vhook(pkg+"Or"+k.n, objVis, func(in *Interp, g *Gor, c *icall) Value {
					old := in.rawLoad(c.args[0], t).(*Term)
					in.rawStore(c.args[0], in.tb.BOr(old, c.t(1)))
					in.atomSync(g, c.args[0], true)
					return old
				})
			}
		}
	}
	anyT := types.NewInterfaceType(nil, nil)
	vhook("(*sync/atomic.Value).Load", objReadVis, func(in *Interp, g *Gor, c *icall) Value {
		v := in.rawLoad(c.args[0], anyT)
		in.atomSync(g, c.args[0], false)
		return v
	})
	atomStore := func(in *Interp, g *Gor, c *icall) Value {
		nv := c.args[1].(Iface)
		if nv.t == nil {
			in.goPanic("sync/atomic: store of nil value into Value")
		}
		old := in.rawLoad(c.args[0], anyT).(Iface)
		if old.t != nil && in.tc.canonical(old.t) != in.tc.canonical(nv.t) {
			in.goPanic("sync/atomic: store of inconsistently typed value into Value")
		}
		in.rawStore(c.args[0], nv)
		in.atomSync(g, c.args[0], true)
		return old
	}
	vhook("(*sync/atomic.Value).Store", objVis, func(in *Interp, g *Gor, c *icall) Value { atomStore(in, g, c); return nil })
	vhook("(*sync/atomic.Value).Swap", objVis, atomStore)
	vhook("(*sync/atomic.Value).CompareAndSwap", objVis, func(in *Interp, g *Gor, c *icall) Value {
		old := in.rawLoad(c.args[0], anyT).(Iface)
		in.atomSync(g, c.args[0], true)
		if in.branch(in.eq(old, c.args[1], anyT)) {
			in.rawStore(c.args[0], c.args[2])
			return in.tb.True
		}
		return in.tb.False
	})

	// ---- runtime
	for _, n := range []string{"runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer",
		"runtime/debug.FreeOSMemory", "internal/runtime/sys.KeepAlive"} {
		hook(n, zeroRes)
	}
	hook("time.runtimeNano", func(in *Interp, g *Gor, c *icall) Value { return in.intv(1000) })
	hook("runtime.Callers", func(in *Interp, g *Gor, c *icall) Value { return in.intv(0) })
	hook("runtime.Caller", zeroRes)
	hook("runtime.NumCPU", func(in *Interp, g *Gor, c *icall) Value { return in.intv(4) })
	hook("runtime.GOMAXPROCS", func(in *Interp, g *Gor, c *icall) Value { return in.intv(4) })
	hook("runtime.NumGoroutine", func(in *Interp, g *Gor, c *icall) Value { return in.intv(1 + len(in.goroutinesAlive())) })
	vhook("runtime.Gosched", func(in *Interp, g *Gor, args []Value) visInfo { return visInfo{enabled: true, yield: true} }, nop)
	vhook("time.Sleep", func(in *Interp, g *Gor, args []Value) visInfo { return visInfo{enabled: true, yield: true} }, nop)
	hook("runtime.Goexit", func(in *Interp, g *Gor, c *icall) Value {
		in.unwind(g, &panicVal{exit: true, msg: "Goexit"})
		return nil
	})
	hook("time.now", func(in *Interp, g *Gor, c *icall) Value { panic(unsupported("time.now")) })
	hook("internal/cpu.Name", zeroRes)

	// ---- bytealg and friends
	hook("bytes.Equal", func(in *Interp, g *Gor, c *icall) Value {
		a, b := in.bytesOf(in.sliceOf(c.args[0])), in.bytesOf(in.sliceOf(c.args[1]))
		return in.strEq(&SymStr{a}, &SymStr{b})
	})
	hookTab["internal/bytealg.Equal"] = hookTab["bytes.Equal"]
	cmp := func(in *Interp, g *Gor, c *icall) Value {
		a, b := in.bytesOrStr(c.args[0]), in.bytesOrStr(c.args[1])
		lt, eq := in.strLess(&SymStr{a}, &SymStr{b}), in.strEq(&SymStr{a}, &SymStr{b})
		return in.tb.Ite(eq, in.intv(0), in.tb.Ite(lt, in.intv(-1), in.intv(1)))
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare"} {
		hook(n, cmp)
	}
	idxByte := func(in *Interp, g *Gor, c *icall) Value {
		b := in.bytesOrStr(c.args[0])
		x := c.t(1)
		r := in.intv(-1)
		for i := len(b) - 1; i >= 0; i-- {
			r = in.tb.Ite(in.tb.Eq(b[i], x), in.intv(i), r)
		}
		return in.concInt64(r)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		hook(n, idxByte)
	}
	lastIdx := func(in *Interp, g *Gor, c *icall) Value {
		b := in.bytesOrStr(c.args[0])
		x := c.t(1)
		r := in.intv(-1)
		for i := 0; i < len(b); i++ {
			r = in.tb.Ite(in.tb.Eq(b[i], x), in.intv(i), r)
		}
		return in.concInt64(r)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte"} {
		hook(n, lastIdx)
	}
	count := func(in *Interp, g *Gor, c *icall) Value {
		b := in.bytesOrStr(c.args[0])
		x := c.t(1)
		r := in.intv(0)
		for i := range b {
			r = in.tb.Add(r, in.tb.Ite(in.tb.Eq(b[i], x), in.intv(1), in.intv(0)))
		}
		return in.concInt64(r)
	}
	hook("internal/bytealg.Count", count)
	hook("internal/bytealg.CountString", count)
	index := func(in *Interp, g *Gor, c *icall) Value {
		a, b := in.bytesOrStr(c.args[0]), in.bytesOrStr(c.args[1])
		r := in.intv(-1)
		for i := len(a) - len(b); i >= 0; i-- {
			r = in.tb.Ite(in.strEq(&SymStr{a[i : i+len(b)]}, &SymStr{b}), in.intv(i), r)
		}
		return in.concInt64(r)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		hook(n, index)
	}
	hook("internal/bytealg.MakeNoZero", func(in *Interp, g *Gor, c *icall) Value {
		in.checkAlloc(c.t(0), "len")
		n := int(in.concInt(c.t(0)))
		return Slice{in.newObj(n, "make"), 0, n, n}
	})
	hook("internal/abi.NoEscape", func(in *Interp, g *Gor, c *icall) Value { return c.args[0] })
	hook("internal/abi.Escape", func(in *Interp, g *Gor, c *icall) Value { return c.args[0] })
	hook("strings.Clone", func(in *Interp, g *Gor, c *icall) Value { return c.args[0] })
	hook("internal/stringslite.Clone", func(in *Interp, g *Gor, c *icall) Value { return c.args[0] })
	hook("(*strings.Builder).copyCheck", nop)
	hook("internal/byteorder.BEUint64", nil)
	delete(hookTab, "internal/byteorder.BEUint64")

	// ---- math
	f1 := func(n string, sym func(in *Interp, t *Term) *Term, conc func(float64) float64) {
		hook("math."+n, func(in *Interp, g *Gor, c *icall) Value {
			t := c.t(0)
			if t.isConst() {
				return in.tb.F64(conc(f64(t)))
			}
			if sym == nil {
				panic(unsupported("math." + n + " of a symbolic value"))
			}
			return sym(in, t)
		})
	}
	f1("Abs", func(in *Interp, t *Term) *Term { return in.tb.FAbs(t) }, math.Abs)
	f1("Sqrt", func(in *Interp, t *Term) *Term { return in.tb.FSqrt(t) }, math.Sqrt)
	f1("sqrt", func(in *Interp, t *Term) *Term { return in.tb.FSqrt(t) }, math.Sqrt)
	f1("Floor", func(in *Interp, t *Term) *Term { return in.tb.FRnd(t, 2) }, math.Floor)
	f1("Ceil", func(in *Interp, t *Term) *Term { return in.tb.FRnd(t, 3) }, math.Ceil)
	f1("Trunc", func(in *Interp, t *Term) *Term { return in.tb.FRnd(t, 1) }, math.Trunc)
	f1("Round", func(in *Interp, t *Term) *Term { return in.tb.FRnd(t, 4) }, math.Round)
	f1("RoundToEven", func(in *Interp, t *Term) *Term { return in.tb.FRnd(t, 0) }, math.RoundToEven)
	f1("Exp", nil, math.Exp)
	f1("Log", nil, math.Log)
	f1("Log2", nil, math.Log2)
	f1("Log10", nil, math.Log10)
	f1("Sin", nil, math.Sin)
	f1("Cos", nil, math.Cos)
	f1("Asin", nil, math.Asin)
	f2 := func(n string, conc func(a, b float64) float64) {
		hook("math."+n, func(in *Interp, g *Gor, c *icall) Value {
			a, b := c.t(0), c.t(1)
			if a.isConst() && b.isConst() {
				return in.tb.F64(conc(f64(a), f64(b)))
			}
			if n == "Max" || n == "Min" {
				lt := in.tb.FCmp(OpFLt, a, b)
				if n == "Max" {
					lt = in.tb.FCmp(OpFLt, b, a)
				}
				nan := in.tb.Or(in.tb.FIsNaN(a), in.tb.FIsNaN(b))
				return in.tb.Ite(nan, in.tb.F64(math.NaN()), in.tb.Ite(lt, a, b))
			}
			panic(unsupported("math." + n + " of symbolic values"))
		})
	}
	f2("Max", math.Max)
	f2("Min", math.Min)
	f2("Pow", math.Pow)
	f2("Mod", math.Mod)
	f2("Hypot", math.Hypot)
	hook("math.Float64bits", func(in *Interp, g *Gor, c *icall) Value { return in.fbits(c.t(0)) })
	hook("math.Float32bits", func(in *Interp, g *Gor, c *icall) Value { return in.fbits(c.t(0)) })
	hook("math.Float64frombits", func(in *Interp, g *Gor, c *icall) Value { return in.tb.FromBits(c.t(0)) })
	hook("math.Float32frombits", func(in *Interp, g *Gor, c *icall) Value { return in.tb.FromBits(c.t(0)) })
	hook("math.IsNaN", func(in *Interp, g *Gor, c *icall) Value { return in.tb.FIsNaN(c.t(0)) })
	hook("math.IsInf", func(in *Interp, g *Gor, c *icall) Value {
		sg := c.t(1)
		if sg.isConst() {
			s := int64(sg.val)
			t := c.t(0)
			pos, neg := in.tb.F64(math.Inf(1)), in.tb.F64(math.Inf(-1))
			switch {
			case s > 0:
				return in.tb.FCmp(OpFEq, t, pos)
			case s < 0:
				return in.tb.FCmp(OpFEq, t, neg)
			}
			return in.tb.FIsInf(t)
		}
		panic(unsupported("math.IsInf symbolic sign"))
	})

	// ---- crc32
	hook("hash/crc32.MakeTable", func(in *Interp, g *Gor, c *icall) Value {
		poly := in.concTerm(c.t(0))
		pm := in.persistMode
		in.persistMode = true
		o := in.newObj(256, "crctable")
		in.persistMode = pm
		tab := crc32.MakeTable(uint32(poly))
		for i := range o.cells {
			o.cells[i] = in.tb.BV(32, uint64(tab[i]))
		}
		p := Ptr{o, 0}
		in.crcPoly[p] = poly
		return p
	})
	upd := func(in *Interp, crc *Term, tab Value, data []*Term) *Term {
		p := in.toPtr(tab)
		poly, ok := in.crcPoly[p]
		if !ok {
			if p.o != nil && strings.Contains(p.o.name, "IEEETable") || p.o == nil {
				poly = uint64(crc32.IEEE)
			} else {
				panic(unsupported("crc32 table"))
			}
		}
		if in.cfg.idealCRC {
			// a collision free checksum: the value stands for the exact
			// sequence of (symbolic) bytes
			sym := !crc.isConst()
			h := crc.h*0x9e3779b97f4a7c15 + poly
			for _, b := range data {
				sym = sym || !b.isConst()
				h = (h^b.h)*0xff51afd7ed558ccd + 0x632be59bd9b4e019
				h ^= h >> 29
			}
			if sym {
				h ^= h >> 32
				h *= 0xc4ceb9fe1a85ec53
				return in.tb.BV(32, h>>32)
			}
		}
		r := in.tb.BNot(crc)
		for _, b := range data {
			r = in.tb.Crc(poly, r, b)
		}
		return in.tb.BNot(r)
	}
	hook("hash/crc32.Update", func(in *Interp, g *Gor, c *icall) Value {
		return upd(in, c.t(0), c.args[1], in.bytesOf(in.sliceOf(c.args[2])))
	})
	hook("hash/crc32.Checksum", func(in *Interp, g *Gor, c *icall) Value {
		return upd(in, in.tb.BV(32, 0), c.args[1], in.bytesOf(in.sliceOf(c.args[0])))
	})
	hook("hash/crc32.ChecksumIEEE", func(in *Interp, g *Gor, c *icall) Value {
		r := in.tb.BNot(in.tb.BV(32, 0))
		for _, b := range in.bytesOf(in.sliceOf(c.args[0])) {
			r = in.tb.Crc(uint64(crc32.IEEE), r, b)
		}
		return in.tb.BNot(r)
	})

	// ---- fmt: formatting is opaque
	fm := func(in *Interp, c *icall, fi, ai int) Value {
		f := "fmt:"
		if fi >= 0 {
			if s, ok := c.args[fi].(string); ok {
				f += s
			}
		}
		s := in.sliceOf(c.args[ai])
		var hs []any
		conc := true
		for i := 0; i < s.len; i++ {
			v, _ := s.o.cells[s.off+i].(Iface)
			h, ok := hostVal(v)
			if !ok {
				conc = false
			}
			hs = append(hs, h)
		}
		if fi >= 0 {
			if fs, ok := c.args[fi].(string); ok && conc {
				return fmt.Sprintf(fs, hs...)
			}
		}
		return f
	}
	hook("fmt.Sprintf", func(in *Interp, g *Gor, c *icall) Value { return fm(in, c, 0, 1) })
	hook("fmt.Sprint", func(in *Interp, g *Gor, c *icall) Value { return fm(in, c, -1, 0) })
	hook("fmt.Sprintln", func(in *Interp, g *Gor, c *icall) Value { return fm(in, c, -1, 0) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		hook(n, zeroRes)
	}

	hook("os.Getenv", func(in *Interp, g *Gor, c *icall) Value { return "" })
	hook("os.Getpagesize", func(in *Interp, g *Gor, c *icall) Value { return in.intv(4096) })
	hook("internal/godebug.New", zeroRes)
	hook("internal/reflectlite.TypeOf", zeroRes)
	hook("sort.Slice", sortSlice)
	hook("sort.SliceStable", sortSlice)

	zzHooks()
}

func (in *Interp) concInt64(t *Term) *Term {
	if t.isConst() {
		return t
	}
	return in.intv(int(in.concInt(t)))
}

// sortSlice: an insertion sort written in the model package does the work on
// indices; here the swaps are done by the host.
func sortSlice(in *Interp, g *Gor, c *icall) Value {
	it := c.args[0].(Iface)
	s, _ := it.v.(Slice)
	if s.len < 2 {
		return nil
	}
	n := in.tc.size(it.t.Underlying().(*types.Slice).Elem())
	swap := &Closure{host: func(in *Interp, g *Gor, args []Value) Value {
		i, j := int(in.concInt(args[0].(*Term))), int(in.concInt(args[1].(*Term)))
		if in.raceOn {
			in.raceAccess(s.o, s.off, s.len*n, true)
		}
		for k := 0; k < n; k++ {
			a, b := s.o.cells[s.off+i*n+k], s.o.cells[s.off+j*n+k]
			in.setCell(s.o, s.off+i*n+k, b)
			in.setCell(s.o, s.off+j*n+k, a)
		}
		return nil
	}}
	fn := in.w.eng.modelFunc("SortIdx")
	in.call(g, fn, []Value{in.intv(s.len), c.args[1], swap}, nil, c.dst)
	return nil
}

func (in *Interp) wgAdd(g *Gor, p Value, d int) Value {
	m := in.mutex(p)
	in.touch(in.toPtr(p), true)
	m.n += d
	if m.n < 0 {
		in.goPanic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		in.release(g, &m.vc)
	}
	return nil
}

func hostVal(v Iface) (any, bool) {
	if v.t == nil {
		return nil, true
	}
	if _, named := v.t.(*types.Named); named {
		if types.NewMethodSet(v.t).Len() > 0 {
			return "<" + v.t.String() + ">", true
		}
	}
	switch x := v.v.(type) {
	case string:
		return x, true
	case *SymStr:
		return "<sym>", false
	case *Term:
		if !x.isConst() {
			return "<sym>", false
		}
		b, ok := v.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.val == 1, true
		case types.Float64:
			return f64(x), true
		case types.Float32:
			return math.Float32frombits(uint32(x.val)), true
		case types.Int8:
			return int8(x.val), true
		case types.Uint8:
			return uint8(x.val), true
		}
		if isSigned(v.t) {
			return sext(x.val, x.sort), true
		}
		return x.val, true
	}
	return "<" + v.t.String() + ">", true
}

// ---- the harness API

func zzHooks() {
	z := func(n string, f intrinsic) { hook(zzPath+"."+n, f) }
	name := func(in *Interp, c *icall) string { s, _ := c.args[0].(string); return s }
	sym := func(n string, sort uint16, kind string) {
		z(n, func(in *Interp, g *Gor, c *icall) Value { return in.newInput(name(in, c), sort, kind) })
	}
	sym("Byte", 8, "uint")
	sym("Int", 64, "int")
	sym("Int64", 64, "int")
	sym("Uint64", 64, "uint")
	sym("Uint32", 32, "uint")
	sym("Int32", 32, "int")
	sym("Uint16", 16, "uint")
	sym("Bool", SBool, "bool")
	z("Float64", func(in *Interp, g *Gor, c *icall) Value {
		return in.tb.FromBits(in.newInput(name(in, c), 64, "float"))
	})
	z("Float32", func(in *Interp, g *Gor, c *icall) Value {
		return in.tb.FromBits(in.newInput(name(in, c), 32, "float32"))
	})
	z("Bytes", func(in *Interp, g *Gor, c *icall) Value {
		n := int(in.concInt(c.t(1)))
		o := in.newObj(n, name(in, c))
		for i := range o.cells {
			o.cells[i] = in.newInput(fmt.Sprintf("%s[%d]", name(in, c), i), 8, "uint")
		}
		return Slice{o, 0, n, n}
	})
	z("String", func(in *Interp, g *Gor, c *icall) Value {
		n := int(in.concInt(c.t(1)))
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.newInput(fmt.Sprintf("%s[%d]", name(in, c), i), 8, "uint")
		}
		return mkStr(b)
	})
	z("Choose", func(in *Interp, g *Gor, c *icall) Value {
		n := int(in.concInt(c.t(1)))
		k := in.choose(n)
		nm := name(in, c)
		cnt := in.names[nm]
		in.names[nm]++
		if cnt > 0 {
			nm = fmt.Sprintf("%s#%d", nm, cnt)
		}
		v := in.tb.BV(64, uint64(k))
		in.inputs = append(in.inputs, inputVar{nm, v, "choice"})
		return v
	})
	z("Concrete", func(in *Interp, g *Gor, c *icall) Value { return in.concInt64(c.t(0)) })
	z("Assume", func(in *Interp, g *Gor, c *icall) Value { in.assume(c.t(0)); return nil })
	z("Assert", func(in *Interp, g *Gor, c *icall) Value {
		l, _ := c.args[1].(string)
		in.assert(c.t(0), l)
		return nil
	})
	z("Fail", func(in *Interp, g *Gor, c *icall) Value {
		l, _ := c.args[0].(string)
		in.asserts++
		in.violation("assert: " + l)
		return nil
	})
	z("Reach", func(in *Interp, g *Gor, c *icall) Value { in.reached[name(in, c)] = true; return nil })
	z("Note", func(in *Interp, g *Gor, c *icall) Value {
		if in.noteOn {
			in.notes = append(in.notes, name(in, c))
		}
		return nil
	})
	z("Observe", func(in *Interp, g *Gor, c *icall) Value {
		e := obsEnt{label: name(in, c)}
		s := in.sliceOf(c.args[1])
		for i := 0; i < s.len; i++ {
			v, _ := s.o.cells[s.off+i].(Iface)
			if sl, ok := v.v.(Slice); ok {
				if eb, ok := v.t.Underlying().(*types.Slice); ok && in.tc.size(eb.Elem()) == 1 {
					if bb, ok := eb.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 {
						v = Iface{types.Typ[types.String], in.bytesToStr(sl)}
					}
				}
			}
			e.vals = append(e.vals, v.v)
			e.typs = append(e.typs, v.t)
		}
		in.obs = append(in.obs, e)
		return nil
	})
	z("Engine", func(in *Interp, g *Gor, c *icall) Value { return in.tb.True })
	z("Thorough", func(in *Interp, g *Gor, c *icall) Value { return in.tb.Bool(thorough) })
	z("Stop", func(in *Interp, g *Gor, c *icall) Value { panic(pathEnd{"ok", ""}) })
	// Crash runs f; it returns true if the process "crashed" inside.
	z("Crash", func(in *Interp, g *Gor, c *icall) Value {
		if in.crashOn {
			panic(unsupported("nested crash scope"))
		}
		cl := c.args[0].(*Closure)
		depth := len(g.frames)
		g.crash = depth
		in.crashOn = true
		in.crashN = 0
		in.invoke(g, cl, nil, c.dst, c.site)
		nf := g.frames[len(g.frames)-1]
		dst := c.dst
		nf.onRet = func(in *Interp, g *Gor, ret Value) {
			in.crashOn = false
			g.crash = 0
			f := g.frames[len(g.frames)-1]
			if dst >= 0 {
				f.regs[dst] = in.tb.False
			}
			f.pc++
		}
		return nil
	})
	z("CrashPoint", func(in *Interp, g *Gor, c *icall) Value { in.crashPoint(name(in, c)); return nil })
	z("Entries", func(in *Interp, g *Gor, c *icall) Value {
		seen := map[any]bool{}
		n := 0
		var walk func(v Value)
		obj := func(o *Obj) {
			if o == nil || seen[o] {
				return
			}
			seen[o] = true
			for _, x := range o.cells {
				walk(x)
			}
		}
		walk = func(v Value) {
			switch v := v.(type) {
			case Ptr:
				obj(v.o)
			case Slice:
				obj(v.o)
			case Iface:
				walk(v.v)
			case Agg:
				for _, x := range v {
					walk(x)
				}
			case *MapObj:
				if v == nil || seen[v] {
					return
				}
				seen[v] = true
				n += v.n
				for _, e := range v.ent {
					if !e.del {
						walk(e.k)
						walk(e.v)
					}
				}
			}
		}
		walk(c.args[0])
		return in.intv(n)
	})
	z("CrashN", func(in *Interp, g *Gor, c *icall) Value { return in.intv(in.crashN) })
	z("CrashMem", func(in *Interp, g *Gor, c *icall) Value {
		if s := in.sliceOf(c.args[0]); s.o != nil {
			s.o.crash = true
			s.o.noRace = false
		}
		return nil
	})
	z("Unmap", func(in *Interp, g *Gor, c *icall) Value {
		if s := in.sliceOf(c.args[0]); s.o != nil {
			s.o.dead = true
		}
		return nil
	})
	// Alias returns a second view of the same memory which can be unmapped on its own.
	z("Alias", func(in *Interp, g *Gor, c *icall) Value {
		s := in.sliceOf(c.args[0])
		if s.o == nil {
			return Slice{}
		}
		o := in.newObj(0, s.o.name)
		o.cells = s.o.cells
		o.crash = s.o.crash
		o.noRace = s.o.noRace
		return Slice{o, s.off, s.len, s.cap}
	})
	z("Name", func(in *Interp, g *Gor, c *icall) Value {
		if s := in.sliceOf(c.args[0]); s.o != nil {
			s.o.name, _ = c.args[1].(string)
		}
		return nil
	})
	z("Dir", func(in *Interp, g *Gor, c *icall) Value { return "/zz" })
	z("MapAddr", func(in *Interp, g *Gor, c *icall) Value {
		s := in.sliceOf(c.args[0])
		if s.o == nil {
			return in.tb.BV(64, 0)
		}
		return in.tb.BV(64, in.ptrToAddr(Ptr{s.o, s.off}))
	})
	vhook(zzPath+".Quiesce", func(in *Interp, g *Gor, args []Value) visInfo { return visInfo{enabled: true} },
		func(in *Interp, g *Gor, c *icall) Value {
			// everything else is parked, blocked or done
			if in.raceOn {
				for _, o := range in.gors {
					vcJoin(&g.vc, o.vc)
				}
			}
			return in.intv(len(in.goroutinesAlive()))
		})
	vhook(zzPath+".Yield", func(in *Interp, g *Gor, args []Value) visInfo { return visInfo{enabled: true, yield: true} }, nop)
	z("Serial", func(in *Interp, g *Gor, c *icall) Value { in.sched.serial = true; return nil })
	z("Goroutines", func(in *Interp, g *Gor, c *icall) Value { return in.intv(len(in.goroutinesAlive())) })
	z("Now", func(in *Interp, g *Gor, c *icall) Value {
		in.nclock++
		return in.tb.BV(64, uint64(1600000000000000000+int64(in.nclock)*1000))
	})
	z("Timer", func(in *Interp, g *Gor, c *icall) Value { // Timer(ch chan time.Time) int
		t := &timer{c: asChan(c.args[0]), armed: true}
		t.val = func() Value { return in.zero(t.c.elem) }
		in.timers = append(in.timers, t)
		return in.intv(len(in.timers) - 1)
	})
	z("TimerFunc", func(in *Interp, g *Gor, c *icall) Value {
		in.timers = append(in.timers, &timer{fn: c.args[0].(*Closure), armed: true})
		return in.intv(len(in.timers) - 1)
	})
	z("TimerStop", func(in *Interp, g *Gor, c *icall) Value {
		t := in.timers[in.concInt(c.t(0))]
		a := t.armed
		t.armed = false
		return in.tb.Bool(a)
	})
	z("TimerArm", func(in *Interp, g *Gor, c *icall) Value {
		in.timers[in.concInt(c.t(0))].armed = true
		return nil
	})
	z("TypeName", func(in *Interp, g *Gor, c *icall) Value {
		v, _ := c.args[0].(Iface)
		if v.t == nil {
			return "nil"
		}
		return v.t.String()
	})
	// Field is a pointer to the field a decoder using struct tags stores the
	// name into, nil if there is none.
	z("Field", func(in *Interp, g *Gor, c *icall) Value {
		v, _ := c.args[0].(Iface)
		tag, _ := c.args[1].(string)
		name, _ := c.args[2].(string)
		p, ok := v.t.(*types.Pointer)
		if !ok {
			return Iface{}
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return Iface{}
		}
		best := -1
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			n := f.Name()
			if t := strings.Split(reflect.StructTag(st.Tag(i)).Get(tag), ",")[0]; t == "-" {
				continue
			} else if t != "" {
				n = t
			}
			if n == name {
				best = i
				break
			}
			if best < 0 && strings.EqualFold(n, name) {
				best = i
			}
		}
		if best < 0 {
			return Iface{}
		}
		x, ok := v.v.(Ptr)
		if !ok || x.o == nil {
			panic(unsupported("Field of a nil pointer"))
		}
		return Iface{types.NewPointer(st.Field(best).Type()), Ptr{x.o, x.off + in.tc.fieldOff(st, best)}}
	})
	// IsStruct returns if the value is a pointer to a struct.
	z("IsStruct", func(in *Interp, g *Gor, c *icall) Value {
		v, _ := c.args[0].(Iface)
		p, ok := v.t.(*types.Pointer)
		if ok {
			_, ok = p.Elem().Underlying().(*types.Struct)
		}
		return in.tb.Bool(ok)
	})
}

func (in *Interp) crashUnwind(g *Gor) {
	m := in.gors[0]
	_ = g
	// the process is gone: every goroutine but the harness stops
	for _, o := range in.gors[1:] {
		o.done = true
		o.frames = nil
		o.pend = nil
	}
	fr := m.frames[m.crash] // the closure frame pushed by Crash
	m.frames = m.frames[:m.crash]
	m.atomic = 0
	for _, f := range m.frames {
		if f.atomic {
			m.atomic++
		}
	}
	m.parked, m.woken, m.pend, m.grant = false, false, nil, false
	m.crash = 0
	in.crashOn = false
	in.mutexes = map[Ptr]*mutexState{}
	f := m.frames[len(m.frames)-1]
	if fr.dst >= 0 {
		f.regs[fr.dst] = in.tb.True
	}
	f.pc++
}
