package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: *Term (bool, ints, floats, uintptr), string, *SymStr, Ptr,
// *SymPtr, Slice, Iface, *Closure, *MapObj, *ChanObj, Agg (structs, arrays),
// Tuple, *iter, or nil (the zero value of the static type).
type Value any

type SymStr struct{ b []*Term }

type Obj struct {
	id      int
	cells   []Value
	name    string
	persist bool
	dead    bool
	shadow  []*shadow
	noRace  bool
	crash   bool   // stores are crash points (persistent memory)
	addr    uint64 // synthetic address, 0 if none assigned
	stride  int    // bytes per cell if address arithmetic is allowed
}

type Ptr struct {
	o   *Obj
	off int
}

// SymPtr is &base[idx] with symbolic idx in [0,n).
type SymPtr struct {
	o      *Obj
	base   int
	stride int
	n      int
	idx    *Term // 64 bit
	off    int   // extra cell offset inside the element
}

type Slice struct {
	o             *Obj
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	host func(in *Interp, g *Gor, args []Value) Value
}

type Agg []Value
type Tuple []Value

type mapEntry struct {
	k, v Value
	del  bool
}

type MapObj struct {
	id     int
	ent    []mapEntry
	idx    map[any]int // concrete keys
	n      int         // live entries
	symk   bool        // some key is symbolic
	shadow *shadow
	persist bool
}

type iter struct {
	m    *MapObj
	keys []Value
	pos  int
	str  Value
}

// ---- types

type typeCache struct {
	sizes  map[types.Type]int
	canon  typeutil.Map
	offs   map[*types.Struct][]int
	msets  map[msetKey]*ssa.Function
	zeroes map[types.Type]Value
}

type msetKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func newTypeCache() *typeCache {
	tc := &typeCache{sizes: map[types.Type]int{}, offs: map[*types.Struct][]int{}, msets: map[msetKey]*ssa.Function{}, zeroes: map[types.Type]Value{}}
	tc.canon.SetHasher(typeutil.MakeHasher())
	return tc
}

func (tc *typeCache) canonical(t types.Type) types.Type {
	if c := tc.canon.At(t); c != nil {
		return c.(types.Type)
	}
	tc.canon.Set(t, t)
	return t
}

// size is the number of cells.
func (tc *typeCache) size(t types.Type) int {
	if n, ok := tc.sizes[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += tc.size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * tc.size(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	tc.sizes[t] = n
	return n
}

func (tc *typeCache) fieldOff(s *types.Struct, i int) int {
	o, ok := tc.offs[s]
	if !ok {
		o = make([]int, s.NumFields()+1)
		for j := 0; j < s.NumFields(); j++ {
			o[j+1] = o[j] + tc.size(s.Field(j).Type())
		}
		tc.offs[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// basicSort returns the term sort of a basic type (ok=false for strings etc).
func basicSort(b *types.Basic) (uint16, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	case types.Float32:
		return SF32, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := basicSort(u); ok {
			switch s {
			case SBool:
				return in.tb.False
			case SF64, SF32:
				return in.tb.fconst(s, 0)
			}
			return in.tb.BV(s, 0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsComplex != 0 {
			panic(unsupported("complex"))
		}
		return ""
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Struct, *types.Array:
		return make(Agg, in.tc.size(t))
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported("zero of " + t.String()))
}

// norm turns a nil cell into the zero value of t.
func (in *Interp) norm(v Value, t types.Type) Value {
	if v == nil {
		return in.zero(t)
	}
	return v
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		// constant of type parameter type; should not happen after instantiation
		panic(unsupported("const of type " + t.String()))
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	s, ok := basicSort(b)
	if !ok {
		if b.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		panic(unsupported("const of type " + t.String()))
	}
	switch s {
	case SBool:
		return in.tb.Bool(constant.BoolVal(c.Value))
	case SF64:
		return in.tb.F64(c.Float64())
	case SF32:
		f, _ := constant.Float32Val(constant.ToFloat(c.Value))
		return in.tb.F32(f)
	}
	if b.Info()&types.IsUnsigned != 0 {
		return in.tb.BV(s, c.Uint64())
	}
	return in.tb.BV(s, uint64(c.Int64()))
}

// ---- memory

func (in *Interp) newObj(n int, name string) *Obj {
	in.objID++
	return &Obj{id: in.objID, cells: make([]Value, n), name: name, persist: in.persistMode}
}

type journalEnt struct {
	o   *Obj
	off int
	old Value
	m   *MapObj
	mo  MapObj
}

func (in *Interp) setCell(o *Obj, off int, v Value) {
	if o.persist && !in.persistMode {
		in.journal = append(in.journal, journalEnt{o: o, off: off, old: o.cells[off]})
	}
	if in.merging {
		in.undo = append(in.undo, undoEnt{o, off, o.cells[off]})
	}
	o.cells[off] = v
}

func (in *Interp) checkLive(o *Obj) {
	if o.dead {
		in.violation("memory: access to unmapped memory (" + o.name + ")")
	}
}

func (in *Interp) load(p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		in.checkLive(p.o)
		n := in.tc.size(t)
		if in.raceOn {
			in.raceAccess(p.o, p.off, n, false)
		}
		if p.off+n > len(p.o.cells) || p.off < 0 {
			panic(unsupported(fmt.Sprintf("out of object load %s off %d n %d len %d", p.o.name, p.off, n, len(p.o.cells))))
		}
		if isAgg(t) {
			a := make(Agg, n)
			copy(a, p.o.cells[p.off:p.off+n])
			return a
		}
		v := p.o.cells[p.off]
		if v == nil {
			return in.zero(t)
		}
		return in.fixLoad(v, p, t)
	case *SymPtr:
		in.checkLive(p.o)
		n := in.tc.size(t)
		if in.raceOn {
			in.raceAccess(p.o, p.base, p.n*p.stride, false)
		}
		if isAgg(t) {
			a := make(Agg, n)
			ft := in.flatTypes(t)
			for j := 0; j < n; j++ {
				a[j] = in.symLoad(p, j, ft[j])
			}
			return a
		}
		return in.symLoad(p, 0, t)
	case nil:
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

// fixLoad handles reinterpreting loads of unsafe code.
func (in *Interp) fixLoad(v Value, p Ptr, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if a, ok := v.(*Term); ok { // struct{addr uintptr; len, cap int} seen as a slice header
			addr := in.concInt(a)
			l := in.concInt(in.norm(p.o.cells[p.off+1], types.Typ[types.Int]).(*Term))
			c := in.concInt(in.norm(p.o.cells[p.off+2], types.Typ[types.Int]).(*Term))
			q := in.addrToPtr(uint64(addr))
			if q.o == nil {
				if l == 0 {
					return Slice{}
				}
				in.violation(fmt.Sprintf("memory: slice of length %d over unmapped address", l))
			}
			if q.off+int(l) > len(q.o.cells) {
				in.violation("memory: slice extends past the mapping")
			}
			return Slice{q.o, q.off, int(l), int(c)}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := v.(Slice); ok { // *(*string)(unsafe.Pointer(&b))
				return in.bytesToStr(s)
			}
		}
		if tm, ok := v.(*Term); ok {
			if s, ok := basicSort(u); ok && s != tm.sort {
				if (s == SF64 && tm.sort == 64) || (s == SF32 && tm.sort == 32) {
					return in.tb.FromBits(tm)
				}
				if (s == 64 && tm.sort == SF64) || (s == 32 && tm.sort == SF32) {
					return in.fbits(tm)
				}
				panic(unsupported(fmt.Sprintf("reinterpreting load of %s from %s", t, p.o.name)))
			}
		}
	}
	return v
}

func (in *Interp) flatTypes(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []types.Type
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, in.flatTypes(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		e := in.flatTypes(u.Elem())
		var out []types.Type
		for i := 0; i < int(u.Len()); i++ {
			out = append(out, e...)
		}
		return out
	}
	return []types.Type{t}
}

func (in *Interp) symLoad(p *SymPtr, j int, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if _, ok := basicSort(b); ok {
			vals := make([]*Term, p.n)
			for i := range vals {
				vals[i] = in.norm(p.o.cells[p.base+i*p.stride+p.off+j], t).(*Term)
			}
			return in.muxTerm(p.idx, vals)
		}
	}
	i := int(in.concInt(p.idx))
	return in.norm(p.o.cells[p.base+i*p.stride+p.off+j], t)
}

// muxTerm selects vals[idx] (idx known to be in range).
func (in *Interp) muxTerm(idx *Term, vals []*Term) *Term {
	if idx.isConst() {
		return vals[idx.val]
	}
	tb := in.tb
	var rec func(bit int, vals []*Term) *Term
	rec = func(bit int, vals []*Term) *Term {
		if len(vals) == 1 {
			return vals[0]
		}
		half := 1 << bit
		if len(vals) <= half {
			return rec(bit-1, vals)
		}
		lo, hi := rec(bit-1, vals[:half]), rec(bit-1, vals[half:])
		return tb.Ite(tb.Eq(tb.Extract(idx, bit, bit), tb.BV(1, 1)), hi, lo)
	}
	top := 0
	for 1<<(top+1) < len(vals) {
		top++
	}
	return rec(top, vals)
}

func (in *Interp) store(p Value, v Value, t types.Type) {
	switch p := p.(type) {
	case Ptr:
		if p.o == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		in.checkLive(p.o)
		n := in.tc.size(t)
		if in.raceOn {
			in.raceAccess(p.o, p.off, n, true)
		}
		if p.o.crash {
			in.crashPoint("store to " + p.o.name)
		}
		if isAgg(t) {
			a := v.(Agg)
			for i, x := range a {
				in.setCell(p.o, p.off+i, x)
			}
			return
		}
		in.setCell(p.o, p.off, v)
		return
	case *SymPtr:
		in.checkLive(p.o)
		if in.raceOn {
			in.raceAccess(p.o, p.base, p.n*p.stride, true)
		}
		if p.o.crash {
			in.crashPoint("store to " + p.o.name)
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			if _, ok := basicSort(b); ok {
				for i := 0; i < p.n; i++ {
					c := p.base + i*p.stride + p.off
					old := in.norm(p.o.cells[c], t).(*Term)
					in.setCell(p.o, c, in.tb.Ite(in.tb.Eq(p.idx, in.tb.BV(64, uint64(i))), v.(*Term), old))
				}
				return
			}
		}
		i := int(in.concInt(p.idx))
		in.store(Ptr{p.o, p.base + i*p.stride + p.off}, v, t)
		return
	case nil:
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (in *Interp) toPtr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case *SymPtr:
		i := int(in.concInt(p.idx))
		return Ptr{p.o, p.base + i*p.stride + p.off}
	case nil:
		return Ptr{}
	}
	panic(unsupported(fmt.Sprintf("toPtr %T", v)))
}

// ---- addresses (unsafe / mmap)

func (in *Interp) ptrToAddr(p Ptr) uint64 {
	if p.o == nil {
		return 0
	}
	if p.o.addr == 0 {
		in.nextAddr += 0x100000
		p.o.addr = in.nextAddr
		in.addrs = append(in.addrs, p.o)
	}
	return p.o.addr + uint64(p.off)
}

func (in *Interp) addrToPtr(a uint64) Ptr {
	if a == 0 {
		return Ptr{}
	}
	for _, o := range in.addrs {
		if a >= o.addr && a <= o.addr+uint64(len(o.cells)) {
			return Ptr{o, int(a - o.addr)}
		}
	}
	return Ptr{}
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(unsupported(fmt.Sprintf("strLen %T", v)))
}

func (in *Interp) strAt(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return in.tb.BV(8, uint64(s[i]))
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func (in *Interp) strBytes(v Value) []*Term {
	if s, ok := v.(*SymStr); ok {
		return s.b
	}
	s, _ := v.(string)
	out := make([]*Term, len(s))
	for i := range out {
		out[i] = in.tb.BV(8, uint64(s[i]))
	}
	return out
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return string(bs)
}

func (in *Interp) bytesToStr(s Slice) Value {
	if s.len == 0 {
		return ""
	}
	in.checkLive(s.o)
	if in.raceOn {
		in.raceAccess(s.o, s.off, s.len, false)
	}
	b := make([]*Term, s.len)
	for i := range b {
		b[i] = in.byteCell(s.o, s.off+i)
	}
	return mkStr(b)
}

func (in *Interp) byteCell(o *Obj, i int) *Term {
	if v := o.cells[i]; v != nil {
		return v.(*Term)
	}
	return in.tb.BV(8, 0)
}

func (in *Interp) strToBytes(v Value) Slice {
	b := in.strBytes(v)
	o := in.newObj(len(b), "bytes")
	for i, t := range b {
		o.cells[i] = t
	}
	return Slice{o, 0, len(b), len(b)}
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func (in *Interp) strCat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	xs, ys := in.strBytes(a), in.strBytes(b)
	out := make([]*Term, 0, len(xs)+len(ys))
	out = append(out, xs...)
	out = append(out, ys...)
	return mkStr(out)
}

func (in *Interp) strEq(a, b Value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return in.tb.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return in.tb.False
	}
	xs, ys := in.strBytes(a), in.strBytes(b)
	r := in.tb.True
	for i := range xs {
		e := in.tb.Eq(xs[i], ys[i])
		if e == in.tb.False {
			return e
		}
		r = in.tb.And(r, e)
	}
	return r
}

// strLess is a < b.
func (in *Interp) strLess(a, b Value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return in.tb.Bool(x < y)
	}
	xs, ys := in.strBytes(a), in.strBytes(b)
	n := min(len(xs), len(ys))
	r := in.tb.Bool(len(xs) < len(ys))
	for i := n - 1; i >= 0; i-- {
		r = in.tb.Or(in.tb.Ult(xs[i], ys[i]), in.tb.And(in.tb.Eq(xs[i], ys[i]), r))
	}
	return r
}

// concStr forces a concrete string by enumerating byte values.
func (in *Interp) concStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := in.strBytes(v)
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(in.concInt(t))
	}
	return string(out)
}

// ---- equality

func (in *Interp) eq(a, b Value, t types.Type) *Term {
	tb := in.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := basicSort(u); ok {
			x, y := in.norm(a, t).(*Term), in.norm(b, t).(*Term)
			if x.sort == SF64 || x.sort == SF32 {
				return tb.FCmp(OpFEq, x, y)
			}
			return tb.Eq(x, y)
		}
		if u.Info()&types.IsString != 0 {
			return in.strEq(in.norm(a, t), in.norm(b, t))
		}
		return in.ptrEq(a, b)
	case *types.Pointer:
		return in.ptrEq(a, b)
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		r := tb.True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if u.Field(i).Name() == "_" {
				continue
			}
			o := in.tc.fieldOff(u, i)
			r = tb.And(r, in.eq(in.sub(x, o, ft), in.sub(y, o, ft), ft))
			if r == tb.False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		n := in.tc.size(u.Elem())
		r := tb.True
		for i := 0; i < int(u.Len()); i++ {
			r = tb.And(r, in.eq(in.sub(x, i*n, u.Elem()), in.sub(y, i*n, u.Elem()), u.Elem()))
			if r == tb.False {
				return r
			}
		}
		return r
	case *types.Interface:
		x, _ := a.(Iface)
		y, _ := b.(Iface)
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if in.tc.canonical(x.t) != in.tc.canonical(y.t) {
			return tb.False
		}
		if !types.Comparable(x.t) {
			in.goPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.v, y.v, x.t)
	case *types.Chan:
		x, _ := a.(*ChanObj)
		y, _ := b.(*ChanObj)
		return tb.Bool(x == y)
	case *types.Map:
		x, _ := a.(*MapObj)
		y, _ := b.(*MapObj)
		return tb.Bool(x == y)
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return tb.Bool(x == y)
	case *types.Slice:
		x, _ := a.(Slice)
		y, _ := b.(Slice)
		return tb.Bool(x.o == nil && y.o == nil || x.o == y.o && x.off == y.off && x.len == y.len)
	}
	panic(unsupported("eq on " + t.String()))
}

func (in *Interp) ptrEq(a, b Value) *Term {
	if sp, ok := a.(*SymPtr); ok {
		if p, ok := b.(Ptr); ok && p.o == nil {
			_ = sp
			return in.tb.False
		}
	}
	return in.tb.Bool(in.toPtr(a) == in.toPtr(b))
}

// sub extracts a value of type t at cell off of an aggregate.
func (in *Interp) sub(a Agg, off int, t types.Type) Value {
	if isAgg(t) {
		n := in.tc.size(t)
		return Agg(a[off : off+n : off+n])
	}
	return in.norm(a[off], t)
}

// ---- maps

// ckey returns a Go-comparable key for concrete values.
func (in *Interp) ckey(v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			if x.sort == SF64 || x.sort == SF32 {
				return fval(x), true
			}
			return x.val, true
		}
		return nil, false
	case string:
		return x, true
	case *SymStr:
		return nil, false
	case Ptr:
		return x, true
	case *ChanObj:
		return x, true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := in.ckey(x.v, x.t)
		if !ok {
			return nil, false
		}
		return [2]any{in.tc.canonical(x.t), k}, true
	case Agg:
		ft := in.flatTypes(t)
		var sb strings.Builder
		for i, c := range x {
			k, ok := in.ckey(in.norm(c, ft[i]), ft[i])
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case string, uint64, float64, nil:
				fmt.Fprintf(&sb, "%T:%v|", k, k)
			case Ptr:
				fmt.Fprintf(&sb, "%p:%d|", k.(Ptr).o, k.(Ptr).off)
			case *ChanObj:
				fmt.Fprintf(&sb, "%p|", k)
			default:
				return nil, false
			}
		}
		return sb.String(), true
	}
	return nil, false
}

func (in *Interp) newMap() *MapObj {
	in.objID++
	return &MapObj{id: in.objID, idx: map[any]int{}, persist: in.persistMode}
}

// mapFind returns the entry index or -1; may fork.
func (in *Interp) mapFind(m *MapObj, k Value, kt types.Type) int {
	if m == nil {
		if it, ok := k.(Iface); ok && it.t != nil && !types.Comparable(it.t) {
			in.goPanic("hash of unhashable type " + it.t.String())
		}
		return -1
	}
	if it, ok := k.(Iface); ok && it.t != nil && !types.Comparable(it.t) {
		in.goPanic("hash of unhashable type " + it.t.String())
	}
	ck, conc := in.ckey(k, kt)
	if conc && !m.symk {
		if f, ok := ck.(float64); ok && f != f {
			return -1
		}
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := range m.ent {
		e := &m.ent[i]
		if e.del {
			continue
		}
		if in.branch(in.eq(e.k, k, kt)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapJournal(m *MapObj) {
	if m.persist && !in.persistMode {
		c := *m
		c.ent = append([]mapEntry(nil), m.ent...)
		c.idx = make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			c.idx[k] = v
		}
		in.journal = append(in.journal, journalEnt{m: m, mo: c})
	}
}

func (in *Interp) mapSet(m *MapObj, k, v Value, kt types.Type) {
	if m == nil {
		in.goPanic("assignment to entry in nil map")
	}
	if in.raceOn {
		in.raceMap(m, true)
	}
	in.mapJournal(m)
	i := in.mapFind(m, k, kt)
	if i >= 0 {
		m.ent[i].v = v
		return
	}
	ck, conc := in.ckey(k, kt)
	m.ent = append(m.ent, mapEntry{k: k, v: v})
	m.n++
	if conc {
		m.idx[ck] = len(m.ent) - 1
	} else {
		m.symk = true
	}
}

func (in *Interp) mapDelete(m *MapObj, k Value, kt types.Type) {
	if m == nil {
		return
	}
	if in.raceOn {
		in.raceMap(m, true)
	}
	i := in.mapFind(m, k, kt)
	if i < 0 {
		return
	}
	in.mapJournal(m)
	m.n--
	ck, conc := in.ckey(m.ent[i].k, kt)
	if conc {
		delete(m.idx, ck)
	}
	m.ent[i].del = true
	m.ent[i].k, m.ent[i].v = nil, nil
	if m.n == 0 {
		m.ent = nil
		m.idx = map[any]int{}
		m.symk = false
	}
}

func (in *Interp) mapGet(m *MapObj, k Value, kt, vt types.Type) (Value, bool) {
	if m != nil && in.raceOn {
		in.raceMap(m, false)
	}
	i := in.mapFind(m, k, kt)
	if i < 0 {
		return in.zero(vt), false
	}
	return in.norm(m.ent[i].v, vt), true
}

// fbits returns the bit pattern of a float term.
func (in *Interp) fbits(t *Term) *Term {
	w := uint16(64)
	if t.sort == SF32 {
		w = 32
	}
	if t.isConst() {
		return in.tb.BV(w, t.val)
	}
	if t.op == OpFromBits {
		return t.k[0]
	}
	if v, ok := in.fbitsMemo[t]; ok {
		return v
	}
	in.fbitsN++
	v := in.tb.Var(fmt.Sprintf("fbits!%d_%d", w, in.fbitsN), w)
	in.fbitsMemo[t] = v
	// keep the current model valid: give v its value
	in.model[v.name] = in.tb.Eval(t, in.model, map[*Term]uint64{})
	in.addPC(in.tb.Eq(in.tb.FromBits(v), t))
	return v
}

func f64(t *Term) float64 { return math.Float64frombits(t.val) }
