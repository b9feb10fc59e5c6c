package main

import (
	"fmt"
	"hash/crc32"
	"math"
	"math/bits"
	"strings"
)

// Term is a hash-consed SMT term. Constants are not interned until they are
// used as an operand; compare terms with same().
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	// bit vectors
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract // val = hi<<8|lo
	OpSExt
	OpUlt
	OpUle
	OpSlt
	OpSle
	// floats
	OpFromBits // BV64->F64 or BV32->F32
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpFIsNaN
	OpFIsInf
	OpFToS // float -> signed bv (rtz), sort = bv width
	OpFToU // float -> unsigned bv (rtz)
	OpSToF // signed bv -> float (rne)
	OpUToF // unsigned bv -> float
	OpFToF // float <-> float (rne)
	OpFRnd // round to integral; val = mode 0 rne 1 rtz 2 rtn(floor) 3 rtp(ceil) 4 rna
	OpCrc  // crc step (crc bv32, byte bv8), val = polynomial
	OpUF   // uninterpreted function, name, val unused; sort from declaration
)

const (
	SBool uint16 = 0
	SF64  uint16 = 200
	SF32  uint16 = 201
)

type Term struct {
	op   Op
	sort uint16
	id   uint32
	n    uint8
	val  uint64
	h    uint64 // structural hash, independent of the builder
	k    [3]*Term
	name string
}

func isBV(s uint16) bool { return s >= 1 && s <= 64 }

type termKey struct {
	op      Op
	sort    uint16
	a, b, c uint32
	val     uint64
	name    string
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}

func thash(t *Term) uint64 {
	h := mix(uint64(t.op)<<16|uint64(t.sort), t.val)
	for i := 0; i < int(t.n); i++ {
		k := t.k[i]
		kh := k.h
		if kh == 0 {
			kh = thash(k)
		}
		h = mix(h, kh)
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
	if h == 0 {
		h = 1
	}
	return h
}

// after orders operands of commutative operators the same way in every
// builder, so that simplification does not depend on the worker.
func after(a, b *Term) bool {
	if a.h != b.h {
		return a.h > b.h
	}
	return a.id > b.id
}

// TB is a term builder (one per worker).
type TB struct {
	tab    map[termKey]*Term
	nextID uint32
	True   *Term
	False  *Term
	small  [65][]*Term
	eval   map[*Term]uint64
	ufs    map[string][2][]uint16
}

func NewTB() *TB {
	tb := &TB{tab: make(map[termKey]*Term)}
	tb.True = tb.intern(Term{op: OpConst, sort: SBool, val: 1})
	tb.False = tb.intern(Term{op: OpConst, sort: SBool, val: 0})
	for _, w := range []int{8, 16, 32, 64} {
		tb.small[w] = make([]*Term, 256)
		for i := range tb.small[w] {
			tb.small[w][i] = tb.intern(Term{op: OpConst, sort: uint16(w), val: uint64(i)})
		}
	}
	return tb
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint16) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tb *TB) intern(t Term) *Term {
	var k termKey
	k.op, k.sort, k.val, k.name = t.op, t.sort, t.val, t.name
	for i := 0; i < int(t.n); i++ {
		if t.k[i].id == 0 {
			t.k[i] = tb.intern(*t.k[i])
		}
	}
	if t.n > 0 {
		k.a = t.k[0].id
	}
	if t.n > 1 {
		k.b = t.k[1].id
	}
	if t.n > 2 {
		k.c = t.k[2].id
	}
	if e, ok := tb.tab[k]; ok {
		return e
	}
	tb.nextID++
	t.id = tb.nextID
	t.h = thash(&t)
	p := new(Term)
	*p = t
	tb.tab[k] = p
	return p
}

func (tb *TB) BV(w uint16, v uint64) *Term {
	v &= mask(w)
	if v < 256 && w <= 64 && tb.small[w] != nil {
		return tb.small[w][v]
	}
	return &Term{op: OpConst, sort: w, val: v}
}
func (tb *TB) F64(f float64) *Term { return &Term{op: OpConst, sort: SF64, val: math.Float64bits(f)} }
func (tb *TB) F32(f float32) *Term {
	return &Term{op: OpConst, sort: SF32, val: uint64(math.Float32bits(f))}
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}
func (tb *TB) Var(name string, sort uint16) *Term {
	return tb.intern(Term{op: OpVar, sort: sort, name: name})
}

func (t *Term) isConst() bool { return t.op == OpConst }

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OpConst && b.op == OpConst {
		return a.sort == b.sort && a.val == b.val
	}
	return false
}

func (tb *TB) mk1(op Op, sort uint16, val uint64, a *Term) *Term {
	return tb.intern(Term{op: op, sort: sort, val: val, n: 1, k: [3]*Term{a}})
}
func (tb *TB) mk2(op Op, sort uint16, a, b *Term) *Term {
	return tb.intern(Term{op: op, sort: sort, n: 2, k: [3]*Term{a, b}})
}

// ---- booleans

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tb.Bool(a.val == 0)
	case OpNot:
		return a.k[0]
	case OpUlt:
		return tb.Ule(a.k[1], a.k[0])
	case OpUle:
		return tb.Ult(a.k[1], a.k[0])
	case OpSlt:
		return tb.Sle(a.k[1], a.k[0])
	case OpSle:
		return tb.Slt(a.k[1], a.k[0])
	}
	return tb.mk1(OpNot, SBool, 0, a)
}

func (tb *TB) isNegOf(a, b *Term) bool {
	if a.op == OpNot && a.k[0] == b || b.op == OpNot && b.k[0] == a {
		return true
	}
	return false
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tb.False
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tb.False
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.isNegOf(a, b) {
		return tb.False
	}
	if after(a, b) {
		a, b = b, a
	}
	return tb.mk2(OpAnd, SBool, a, b)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return tb.True
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return tb.True
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.isNegOf(a, b) {
		return tb.True
	}
	if after(a, b) {
		a, b = b, a
	}
	return tb.mk2(OpOr, SBool, a, b)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %d %d", a.sort, b.sort))
	}
	if c.op == OpNot {
		return tb.Ite(c.k[0], b, a)
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.val == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
	}
	if a.op == OpIte && a.k[0] == c {
		a = a.k[1]
	}
	if b.op == OpIte && b.k[0] == c {
		b = b.k[2]
	}
	if same(a, b) {
		return a
	}
	if b.op == OpIte && same(b.k[1], a) {
		return tb.Ite(tb.Or(c, b.k[0]), a, b.k[2])
	}
	return tb.intern(Term{op: OpIte, sort: a.sort, n: 3, k: [3]*Term{c, a, b}})
}

// ---- bit vector structure

type bvPart struct {
	t *Term
	w uint16
}

// parts flattens concats; most significant first.
func (tb *TB) parts(t *Term, out []bvPart) []bvPart {
	if t.op == OpConcat {
		out = tb.parts(t.k[0], out)
		return tb.parts(t.k[1], out)
	}
	return append(out, bvPart{t, t.sort})
}

func (tb *TB) Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.BV(a.sort+b.sort, a.val<<b.sort|b.val)
	}
	// right-nested: a must not be a concat
	if a.op == OpConcat {
		return tb.Concat(a.k[0], tb.Concat(a.k[1], b))
	}
	// merge with the head of b
	head, rest := b, (*Term)(nil)
	if b.op == OpConcat {
		head, rest = b.k[0], b.k[1]
	}
	var m *Term
	if a.isConst() && head.isConst() {
		m = tb.BV(a.sort+head.sort, a.val<<head.sort|head.val)
	} else if a.op == OpExtract && head.op == OpExtract && a.k[0] == head.k[0] {
		ahi, alo := a.val>>8, a.val&0xff
		hhi, hlo := head.val>>8, head.val&0xff
		if alo == hhi+1 {
			m = tb.Extract(a.k[0], int(ahi), int(hlo))
		}
	} else if a.op == OpBNot && head.op == OpBNot && a.k[0].op == OpExtract && head.k[0].op == OpExtract && a.k[0].k[0] == head.k[0].k[0] &&
		a.k[0].val&0xff == head.k[0].val>>8+1 {
		m = tb.BNot(tb.Concat(a.k[0], head.k[0]))
	} else if a.op == OpIte && head.op == OpIte && a.k[0] == head.k[0] && a.sort+head.sort <= 64 &&
		(a.k[1].isConst() || a.k[2].isConst() || a.k[1].op == OpExtract) {
		m = tb.Ite(a.k[0], tb.Concat(a.k[1], head.k[1]), tb.Concat(a.k[2], head.k[2]))
	}
	if m != nil {
		if rest != nil {
			return tb.Concat(m, rest)
		}
		return m
	}
	return tb.mk2(OpConcat, a.sort+b.sort, a, b)
}

func (tb *TB) Extract(t *Term, hi, lo int) *Term {
	w := uint16(hi - lo + 1)
	if w == t.sort {
		return t
	}
	switch t.op {
	case OpConst:
		return tb.BV(w, t.val>>uint(lo))
	case OpExtract:
		l0 := int(t.val & 0xff)
		return tb.Extract(t.k[0], hi+l0, lo+l0)
	case OpConcat:
		lw := int(t.k[1].sort)
		if hi < lw {
			return tb.Extract(t.k[1], hi, lo)
		}
		if lo >= lw {
			return tb.Extract(t.k[0], hi-lw, lo-lw)
		}
		return tb.Concat(tb.Extract(t.k[0], hi-lw, 0), tb.Extract(t.k[1], lw-1, lo))
	case OpSExt:
		iw := int(t.k[0].sort)
		if hi < iw {
			return tb.Extract(t.k[0], hi, lo)
		}
	case OpIte:
		return tb.Ite(t.k[0], tb.Extract(t.k[1], hi, lo), tb.Extract(t.k[2], hi, lo))
	case OpBAnd:
		return tb.BAnd(tb.Extract(t.k[0], hi, lo), tb.Extract(t.k[1], hi, lo))
	case OpBOr:
		return tb.BOr(tb.Extract(t.k[0], hi, lo), tb.Extract(t.k[1], hi, lo))
	case OpBXor:
		return tb.BXor(tb.Extract(t.k[0], hi, lo), tb.Extract(t.k[1], hi, lo))
	case OpBNot:
		return tb.BNot(tb.Extract(t.k[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			a, b := tb.Extract(t.k[0], hi, 0), tb.Extract(t.k[1], hi, 0)
			switch t.op {
			case OpAdd:
				return tb.Add(a, b)
			case OpSub:
				return tb.Sub(a, b)
			default:
				return tb.Mul(a, b)
			}
		}
	}
	return tb.mk1(OpExtract, w, uint64(hi)<<8|uint64(lo), t)
}

func (tb *TB) ZExt(t *Term, w uint16) *Term {
	if w == t.sort {
		return t
	}
	return tb.Concat(tb.BV(w-t.sort, 0), t)
}

func (tb *TB) topZero(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.val>>(t.sort-1)&1 == 0
	case OpConcat:
		return tb.topZero(t.k[0])
	case OpIte:
		return tb.topZero(t.k[1]) && tb.topZero(t.k[2])
	}
	return tb.umax(t, 6) < uint64(1)<<(t.sort-1)
}

func (tb *TB) SExt(t *Term, w uint16) *Term {
	if w == t.sort {
		return t
	}
	if t.isConst() {
		return tb.BV(w, uint64(sext(t.val, t.sort)))
	}
	if t.op == OpConcat && tb.topZero(t.k[0]) {
		return tb.ZExt(t, w)
	}
	if t.op == OpSExt {
		return tb.SExt(t.k[0], w)
	}
	if t.op == OpIte && (t.k[1].isConst() || t.k[2].isConst()) {
		return tb.Ite(t.k[0], tb.SExt(t.k[1], w), tb.SExt(t.k[2], w))
	}
	return tb.mk1(OpSExt, w, 0, t)
}

// umax is a cheap upper bound on the unsigned value.
func (tb *TB) umax(t *Term, depth int) uint64 {
	if t.op == OpConst {
		return t.val
	}
	m := mask(t.sort)
	if depth == 0 {
		return m
	}
	switch t.op {
	case OpConcat:
		return tb.umax(t.k[0], depth-1)<<t.k[1].sort | tb.umax(t.k[1], depth-1)
	case OpIte:
		return max(tb.umax(t.k[1], depth-1), tb.umax(t.k[2], depth-1))
	case OpURem:
		if t.k[1].isConst() && t.k[1].val > 0 {
			return t.k[1].val - 1
		}
	case OpUDiv:
		if t.k[1].isConst() && t.k[1].val > 0 {
			return tb.umax(t.k[0], depth-1) / t.k[1].val
		}
	case OpBAnd:
		return min(tb.umax(t.k[0], depth-1), tb.umax(t.k[1], depth-1))
	case OpLShr:
		if t.k[1].isConst() && t.k[1].val < 64 {
			return tb.umax(t.k[0], depth-1) >> t.k[1].val
		}
	case OpBOr, OpBXor:
		x := tb.umax(t.k[0], depth-1) | tb.umax(t.k[1], depth-1)
		if x == 0 {
			return 0
		}
		return mask(uint16(bits.Len64(x)))
	case OpAdd:
		a, b := tb.umax(t.k[0], depth-1), tb.umax(t.k[1], depth-1)
		if s, c := bits.Add64(a, b, 0); c == 0 && s <= m {
			return s
		}
	case OpMul:
		a, b := tb.umax(t.k[0], depth-1), tb.umax(t.k[1], depth-1)
		if h, l := bits.Mul64(a, b); h == 0 && l <= m {
			return l
		}
	}
	return m
}

// srange is a cheap bound on the signed value.
func (tb *TB) srange(t *Term, depth int) (lo, hi int64, ok bool) {
	w := t.sort
	if w > 64 || w == 0 {
		return 0, 0, false
	}
	if t.op == OpConst {
		v := sext(t.val, w)
		return v, v, true
	}
	if depth == 0 {
		return 0, 0, false
	}
	fit := func(lo, hi int64) (int64, int64, bool) {
		if w < 64 && (lo < -1<<(w-1) || hi >= 1<<(w-1)) {
			return 0, 0, false
		}
		return lo, hi, true
	}
	const big = 1 << 61
	two := func() (a, b, c, d int64, ok bool) {
		a, b, ok1 := tb.srange(t.k[0], depth-1)
		if !ok1 {
			return
		}
		c, d, ok2 := tb.srange(t.k[1], depth-1)
		if !ok2 || a < -big || b > big || c < -big || d > big {
			return 0, 0, 0, 0, false
		}
		return a, b, c, d, true
	}
	switch t.op {
	case OpAdd:
		if a, b, c, d, ok := two(); ok {
			return fit(a+c, b+d)
		}
	case OpSub:
		if a, b, c, d, ok := two(); ok {
			return fit(a-d, b-c)
		}
	case OpNeg:
		if a, b, ok := tb.srange(t.k[0], depth-1); ok && a > -big && b < big {
			return fit(-b, -a)
		}
	case OpIte:
		a, b, ok1 := tb.srange(t.k[1], depth-1)
		if !ok1 {
			return 0, 0, false
		}
		c, d, ok2 := tb.srange(t.k[2], depth-1)
		return min(a, c), max(b, d), ok2
	case OpMul:
		if a, b, c, d, ok := two(); ok {
			const m = 1 << 30
			if a > -m && b < m && c > -m && d < m {
				p := []int64{a * c, a * d, b * c, b * d}
				lo, hi := p[0], p[0]
				for _, x := range p {
					lo, hi = min(lo, x), max(hi, x)
				}
				return fit(lo, hi)
			}
		}
	case OpSDiv:
		if k := t.k[1]; k.isConst() && sext(k.val, w) > 0 {
			if a, b, ok := tb.srange(t.k[0], depth-1); ok {
				c := sext(k.val, w)
				return a / c, b / c, true
			}
		}
	case OpSExt:
		s := t.k[0].sort
		if a, b, ok := tb.srange(t.k[0], depth-1); ok {
			return a, b, true
		}
		if s < 62 {
			return -1 << (s - 1), 1<<(s-1) - 1, true
		}
	}
	if u := tb.umax(t, depth); u <= mask(w)>>1 {
		return 0, int64(u), true
	}
	if w < 32 {
		return -1 << (w - 1), 1<<(w-1) - 1, true
	}
	return 0, 0, false
}

// fewBits is how many bits hold the signed values of the terms, if that is
// noticeably less than they have.
func (tb *TB) fewBits(t *Term, more ...*Term) (uint16, bool) {
	k := uint16(1)
	for _, x := range append(more, t) {
		lo, hi, ok := tb.srange(x, 8)
		if !ok {
			return 0, false
		}
		for k < 64 && (lo < -1<<(k-1) || hi >= 1<<(k-1)) {
			k++
		}
	}
	return k, k+8 <= t.sort
}

// low is the lowest k bits of t.
func (tb *TB) low(t *Term, k uint16) *Term {
	switch t.op {
	case OpAdd:
		return tb.Add(tb.low(t.k[0], k), tb.low(t.k[1], k))
	case OpSub:
		return tb.Sub(tb.low(t.k[0], k), tb.low(t.k[1], k))
	case OpNeg:
		return tb.Neg(tb.low(t.k[0], k))
	}
	return tb.Extract(t, int(k)-1, 0)
}

// orParts tries to combine two terms with disjoint known bits to a concat.
func (tb *TB) orParts(a, b *Term, xor bool) *Term {
	if a.op != OpConcat && b.op != OpConcat {
		return nil
	}
	var bufA, bufB [16]bvPart
	pa, pb := tb.parts(a, bufA[:0]), tb.parts(b, bufB[:0])
	var out []*Term
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		w := min(pa[i].w, pb[j].w)
		x, y := pa[i], pb[j]
		xt := tb.Extract(x.t, int(x.w)-1, int(x.w-w))
		yt := tb.Extract(y.t, int(y.w)-1, int(y.w-w))
		switch {
		case xt.isConst() && xt.val == 0:
			out = append(out, yt)
		case yt.isConst() && yt.val == 0:
			out = append(out, xt)
		case xt.isConst() && yt.isConst():
			if xor {
				out = append(out, tb.BV(w, xt.val^yt.val))
			} else {
				out = append(out, tb.BV(w, xt.val|yt.val))
			}
		default:
			return nil
		}
		if x.w > w {
			pa[i] = bvPart{tb.Extract(x.t, int(x.w-w)-1, 0), x.w - w}
		} else {
			i++
		}
		if y.w > w {
			pb[j] = bvPart{tb.Extract(y.t, int(y.w-w)-1, 0), y.w - w}
		} else {
			j++
		}
	}
	r := out[len(out)-1]
	for k := len(out) - 2; k >= 0; k-- {
		r = tb.Concat(out[k], r)
	}
	return r
}

func (tb *TB) foldIte2(op func(a, b *Term) *Term, a, b *Term) *Term {
	if a.op == OpIte && b.isConst() && a.k[1].isConst() && a.k[2].isConst() {
		return tb.Ite(a.k[0], op(a.k[1], b), op(a.k[2], b))
	}
	if b.op == OpIte && a.isConst() && b.k[1].isConst() && b.k[2].isConst() {
		return tb.Ite(b.k[0], op(a, b.k[1]), op(a, b.k[2]))
	}
	return nil
}

func (tb *TB) Add(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.k[1].isConst() {
			return tb.Add(a.k[0], tb.BV(w, a.k[1].val+b.val))
		}
		if a.op == OpSub && a.k[0].isConst() {
			return tb.Sub(tb.BV(w, a.k[0].val+b.val), a.k[1])
		}
	} else {
		if a.op == OpAdd && a.k[1].isConst() {
			return tb.Add(tb.Add(a.k[0], b), a.k[1])
		}
		if b.op == OpAdd && b.k[1].isConst() {
			return tb.Add(tb.Add(a, b.k[0]), b.k[1])
		}
		if b.op == OpSub && b.k[1] == a {
			return b.k[0]
		}
		if a.op == OpSub && a.k[1] == b {
			return a.k[0]
		}
		if a.op == OpNeg {
			return tb.Sub(b, a.k[0])
		}
		if b.op == OpNeg {
			return tb.Sub(a, b.k[0])
		}
		if after(a, b) {
			a, b = b, a
		}
	}
	if r := tb.foldIte2(tb.Add, a, b); r != nil {
		return r
	}
	return tb.mk2(OpAdd, w, a, b)
}

func (tb *TB) Sub(a, b *Term) *Term {
	w := a.sort
	if same(a, b) {
		return tb.BV(w, 0)
	}
	if b.isConst() {
		return tb.Add(a, tb.BV(w, -b.val))
	}
	if a.isConst() && a.val == 0 {
		return tb.Neg(b)
	}
	if a.op == OpAdd {
		if a.k[0] == b {
			return a.k[1]
		}
		if a.k[1] == b {
			return a.k[0]
		}
		if a.k[1].isConst() {
			return tb.Add(tb.Sub(a.k[0], b), a.k[1])
		}
	}
	if b.op == OpAdd {
		if b.k[1].isConst() {
			return tb.Add(tb.Sub(a, b.k[0]), tb.BV(w, -b.k[1].val))
		}
		if b.k[0] == a {
			return tb.Neg(b.k[1])
		}
		if b.k[1] == a {
			return tb.Neg(b.k[0])
		}
	}
	if a.op == OpSub && a.k[0] == b {
		return tb.Neg(a.k[1])
	}
	if b.op == OpNeg {
		return tb.Add(a, b.k[0])
	}
	if r := tb.foldIte2(tb.Sub, a, b); r != nil {
		return r
	}
	return tb.mk2(OpSub, w, a, b)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.isConst() {
		return tb.BV(a.sort, -a.val)
	}
	if a.op == OpNeg {
		return a.k[0]
	}
	if a.op == OpSub {
		return tb.Sub(a.k[1], a.k[0])
	}
	return tb.mk1(OpNeg, a.sort, 0, a)
}

func (tb *TB) Mul(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.Shl(a, tb.BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
	} else if after(a, b) {
		a, b = b, a
	}
	if r := tb.foldIte2(tb.Mul, a, b); r != nil {
		return r
	}
	return tb.mk2(OpMul, w, a, b)
}

// division by zero must have been excluded by the caller (Go panics).
func (tb *TB) UDiv(a, b *Term) *Term {
	w := a.sort
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.BV(w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tb.LShr(a, tb.BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if tb.umax(a, 6) < b.val {
			return tb.BV(w, 0)
		}
	}
	return tb.mk2(OpUDiv, w, a, b)
}
func (tb *TB) URem(a, b *Term) *Term {
	w := a.sort
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.BV(w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return tb.BAnd(a, tb.BV(w, b.val-1))
		}
		if tb.umax(a, 6) < b.val {
			return a
		}
	}
	return tb.mk2(OpURem, w, a, b)
}
func (tb *TB) SDiv(a, b *Term) *Term {
	w := a.sort
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			x, y := sext(a.val, w), sext(b.val, w)
			if y == -1 {
				return tb.BV(w, uint64(-x))
			}
			return tb.BV(w, uint64(x/y))
		}
		if tb.topZero(a) && tb.topZero(b) {
			return tb.UDiv(a, b)
		}
		if lo, hi, ok := tb.srange(a, 8); ok && sext(b.val, w) > 0 && w == 64 {
			if k, ok := tb.fewBits(a, b); ok {
				if lo >= 0 {
					return tb.ZExt(tb.UDiv(tb.low(a, k), tb.BV(k, b.val)), w)
				}
				return tb.SExt(tb.mk2(OpSDiv, k, tb.low(a, k), tb.BV(k, b.val)), w)
			}
			_ = hi
		}
	}
	return tb.mk2(OpSDiv, w, a, b)
}
func (tb *TB) SRem(a, b *Term) *Term {
	w := a.sort
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			x, y := sext(a.val, w), sext(b.val, w)
			if y == -1 {
				return tb.BV(w, 0)
			}
			return tb.BV(w, uint64(x%y))
		}
		if tb.topZero(a) && tb.topZero(b) {
			return tb.URem(a, b)
		}
		if lo, hi, ok := tb.srange(a, 8); ok && sext(b.val, w) > 0 && w == 64 {
			if k, ok := tb.fewBits(a, b); ok {
				if lo >= 0 {
					return tb.ZExt(tb.URem(tb.low(a, k), tb.BV(k, b.val)), w)
				}
				return tb.SExt(tb.mk2(OpSRem, k, tb.low(a, k), tb.BV(k, b.val)), w)
			}
			_ = hi
		}
	}
	return tb.mk2(OpSRem, w, a, b)
}

func contiguous(v uint64) (hi, lo int, ok bool) {
	if v == 0 {
		return 0, 0, false
	}
	lo = bits.TrailingZeros64(v)
	hi = 63 - bits.LeadingZeros64(v)
	return hi, lo, v>>uint(lo) == mask(uint16(hi-lo+1))
}

func (tb *TB) BAnd(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val&b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(w) {
			return a
		}
		if hi, lo, ok := contiguous(b.val); ok {
			r := tb.Extract(a, hi, lo)
			if lo > 0 {
				r = tb.Concat(r, tb.BV(uint16(lo), 0))
			}
			return tb.ZExt(r, w)
		}
		if a.op == OpConcat {
			lw := a.k[1].sort
			return tb.Concat(tb.BAnd(a.k[0], tb.BV(w-lw, b.val>>lw)), tb.BAnd(a.k[1], tb.BV(lw, b.val)))
		}
	} else if after(a, b) {
		a, b = b, a
	}
	if r := tb.foldIte2(tb.BAnd, a, b); r != nil {
		return r
	}
	return tb.mk2(OpBAnd, w, a, b)
}

func (tb *TB) BOr(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val|b.val)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return b
		}
		if hi, lo, ok := contiguous(b.val); ok {
			var r *Term = tb.BV(uint16(hi-lo+1), mask(uint16(hi-lo+1)))
			if lo > 0 {
				r = tb.Concat(r, tb.Extract(a, lo-1, 0))
			}
			if hi < int(w)-1 {
				r = tb.Concat(tb.Extract(a, int(w)-1, hi+1), r)
			}
			return r
		}
	} else if after(a, b) {
		a, b = b, a
	}
	if r := tb.orParts(a, b, false); r != nil {
		return r
	}
	if r := tb.foldIte2(tb.BOr, a, b); r != nil {
		return r
	}
	return tb.mk2(OpBOr, w, a, b)
}

func (tb *TB) BXor(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.BV(w, a.val^b.val)
	}
	if a == b {
		return tb.BV(w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(w) {
			return tb.BNot(a)
		}
		if a.op == OpBXor && a.k[1].isConst() {
			return tb.BXor(a.k[0], tb.BV(w, a.k[1].val^b.val))
		}
	} else if after(a, b) {
		a, b = b, a
	}
	if r := tb.orParts(a, b, true); r != nil {
		return r
	}
	if r := tb.foldIte2(tb.BXor, a, b); r != nil {
		return r
	}
	return tb.mk2(OpBXor, w, a, b)
}

func (tb *TB) BNot(a *Term) *Term {
	if a.isConst() {
		return tb.BV(a.sort, ^a.val)
	}
	if a.op == OpBNot {
		return a.k[0]
	}
	return tb.mk1(OpBNot, a.sort, 0, a)
}

func (tb *TB) Shl(a, s *Term) *Term {
	w := a.sort
	if s.isConst() {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(w) {
			return tb.BV(w, 0)
		}
		return tb.Concat(tb.Extract(a, int(w)-1-int(s.val), 0), tb.BV(uint16(s.val), 0))
	}
	return tb.mk2(OpShl, w, a, s)
}
func (tb *TB) LShr(a, s *Term) *Term {
	w := a.sort
	if s.isConst() {
		if s.val == 0 {
			return a
		}
		if s.val >= uint64(w) {
			return tb.BV(w, 0)
		}
		return tb.ZExt(tb.Extract(a, int(w)-1, int(s.val)), w)
	}
	return tb.mk2(OpLShr, w, a, s)
}
func (tb *TB) AShr(a, s *Term) *Term {
	w := a.sort
	if s.isConst() {
		if s.val == 0 {
			return a
		}
		sv := s.val
		if sv >= uint64(w) {
			sv = uint64(w) - 1
		}
		return tb.SExt(tb.Extract(a, int(w)-1, int(sv)), w)
	}
	return tb.mk2(OpAShr, w, a, s)
}

// ---- comparisons

func (tb *TB) Eq(a, b *Term) *Term {
	if same(a, b) {
		return tb.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return tb.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
		if tb.isNegOf(a, b) {
			return tb.False
		}
	}
	if isBV(a.sort) {
		if b.isConst() {
			switch a.op {
			case OpConcat:
				lw := a.k[1].sort
				hi := tb.Eq(a.k[0], tb.BV(a.k[0].sort, b.val>>lw))
				if hi == tb.False {
					return hi
				}
				return tb.And(hi, tb.Eq(a.k[1], tb.BV(lw, b.val)))
			case OpIte:
				if a.k[1].isConst() || a.k[2].isConst() {
					return tb.Ite(a.k[0], tb.Eq(a.k[1], b), tb.Eq(a.k[2], b))
				}
			case OpAdd:
				if a.k[1].isConst() {
					return tb.Eq(a.k[0], tb.BV(a.sort, b.val-a.k[1].val))
				}
			case OpBXor:
				if a.k[1].isConst() {
					return tb.Eq(a.k[0], tb.BV(a.sort, b.val^a.k[1].val))
				}
			case OpBNot:
				return tb.Eq(a.k[0], tb.BV(a.sort, ^b.val))
			case OpNeg:
				return tb.Eq(a.k[0], tb.BV(a.sort, -b.val))
			case OpSExt:
				iw := a.k[0].sort
				if uint64(sext(b.val&mask(iw), iw))&mask(a.sort) != b.val {
					return tb.False
				}
				return tb.Eq(a.k[0], tb.BV(iw, b.val))
			}
			if tb.umax(a, 6) < b.val {
				return tb.False
			}
		} else {
			if a.op == OpConcat || b.op == OpConcat {
				var bufA, bufB [16]bvPart
				pa, pb := tb.parts(a, bufA[:0]), tb.parts(b, bufB[:0])
				// compare by aligned segments if every cut is cheap
				if alignable(pa, pb) {
					r := tb.True
					i, j := 0, 0
					for i < len(pa) && j < len(pb) {
						w := min(pa[i].w, pb[j].w)
						x, y := pa[i], pb[j]
						r = tb.And(r, tb.Eq(tb.Extract(x.t, int(x.w)-1, int(x.w-w)), tb.Extract(y.t, int(y.w)-1, int(y.w-w))))
						if r == tb.False {
							return r
						}
						if x.w > w {
							pa[i] = bvPart{tb.Extract(x.t, int(x.w-w)-1, 0), x.w - w}
						} else {
							i++
						}
						if y.w > w {
							pb[j] = bvPart{tb.Extract(y.t, int(y.w-w)-1, 0), y.w - w}
						} else {
							j++
						}
					}
					return r
				}
			}
			if a.op == OpCrc && b.op == OpCrc && a.val == b.val {
				if same(a.k[1], b.k[1]) {
					return tb.Eq(a.k[0], b.k[0])
				}
				if same(a.k[0], b.k[0]) {
					return tb.Eq(a.k[1], b.k[1])
				}
			}
			if a.op == OpBNot && b.op == OpBNot {
				return tb.Eq(a.k[0], b.k[0])
			}
			if a.op == OpBXor && b.op == OpBXor && same(a.k[1], b.k[1]) {
				return tb.Eq(a.k[0], b.k[0])
			}
			if a.op == OpSExt && b.op == OpSExt && a.k[0].sort == b.k[0].sort {
				return tb.Eq(a.k[0], b.k[0])
			}
			if a.op == OpAdd && b.op == OpAdd && same(a.k[1], b.k[1]) {
				return tb.Eq(a.k[0], b.k[0])
			}
			if a.op == OpAdd && a.k[1].isConst() && same(a.k[0], b) {
				return tb.False
			}
			if b.op == OpAdd && b.k[1].isConst() && same(b.k[0], a) {
				return tb.False
			}
			if a.op == OpIte && b.op == OpIte && a.k[0] == b.k[0] {
				return tb.Ite(a.k[0], tb.Eq(a.k[1], b.k[1]), tb.Eq(a.k[2], b.k[2]))
			}
			if a.op == OpIte && (same(a.k[1], b) || same(a.k[2], b)) {
				return tb.Ite(a.k[0], tb.Eq(a.k[1], b), tb.Eq(a.k[2], b))
			}
			if b.op == OpIte && (same(b.k[1], a) || same(b.k[2], a)) {
				return tb.Ite(b.k[0], tb.Eq(b.k[1], a), tb.Eq(b.k[2], a))
			}
		}
	}
	if !b.isConst() && after(a, b) {
		a, b = b, a
	}
	return tb.mk2(OpEq, SBool, a, b)
}

func alignable(pa, pb []bvPart) bool {
	i, j := 0, 0
	var ra, rb uint16
	for i < len(pa) && j < len(pb) {
		if ra == 0 {
			ra = pa[i].w
		}
		if rb == 0 {
			rb = pb[j].w
		}
		w := min(ra, rb)
		// a cut inside a part is fine for any term (extract), always allow
		ra -= w
		rb -= w
		if ra == 0 {
			i++
		}
		if rb == 0 {
			j++
		}
	}
	return true
}

func (tb *TB) Ult(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val < b.val)
	}
	if same(a, b) {
		return tb.False
	}
	if b.isConst() {
		if b.val == 0 {
			return tb.False
		}
		if b.val == 1 {
			return tb.Eq(a, tb.BV(w, 0))
		}
		if tb.umax(a, 6) < b.val {
			return tb.True
		}
	}
	if a.isConst() {
		if a.val == mask(w) {
			return tb.False
		}
		if a.val == 0 {
			return tb.Not(tb.Eq(b, tb.BV(w, 0)))
		}
		if tb.umax(b, 6) <= a.val {
			return tb.False
		}
	}
	if r := tb.narrow(tb.Ult, a, b); r != nil {
		return r
	}
	if r := tb.foldIteCmp(tb.Ult, a, b); r != nil {
		return r
	}
	return tb.mk2(OpUlt, SBool, a, b)
}

func (tb *TB) Ule(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val <= b.val)
	}
	if same(a, b) {
		return tb.True
	}
	if a.isConst() {
		if a.val == 0 {
			return tb.True
		}
		if a.val == 1 {
			return tb.Not(tb.Eq(b, tb.BV(w, 0)))
		}
		if tb.umax(b, 6) < a.val {
			return tb.False
		}
	}
	if b.isConst() {
		if b.val == 0 {
			return tb.Eq(a, b)
		}
		if tb.umax(a, 6) <= b.val {
			return tb.True
		}
	}
	if r := tb.narrow(tb.Ule, a, b); r != nil {
		return r
	}
	if r := tb.foldIteCmp(tb.Ule, a, b); r != nil {
		return r
	}
	return tb.mk2(OpUle, SBool, a, b)
}

func (tb *TB) foldIteCmp(op func(a, b *Term) *Term, a, b *Term) *Term {
	if a.op == OpIte && b.isConst() && (a.k[1].isConst() || a.k[2].isConst()) {
		return tb.Ite(a.k[0], op(a.k[1], b), op(a.k[2], b))
	}
	if b.op == OpIte && a.isConst() && (b.k[1].isConst() || b.k[2].isConst()) {
		return tb.Ite(b.k[0], op(a, b.k[1]), op(a, b.k[2]))
	}
	return nil
}

// narrow drops equal constant high parts from an unsigned comparison.
func (tb *TB) narrow(op func(a, b *Term) *Term, a, b *Term) *Term {
	hp := func(t *Term) (uint64, uint16) { // const high part
		if t.op == OpConcat && t.k[0].isConst() {
			return t.k[0].val, t.k[0].sort
		}
		return 0, 0
	}
	_, wa := hp(a)
	_, wb := hp(b)
	var w uint16
	switch {
	case a.isConst() && wb > 0:
		w = wb
	case b.isConst() && wa > 0:
		w = wa
	case wa > 0 && wb > 0:
		w = min(wa, wb)
	default:
		return nil
	}
	n := a.sort
	ha, hb := tb.Extract(a, int(n)-1, int(n-w)), tb.Extract(b, int(n)-1, int(n-w))
	if ha.val != hb.val {
		return tb.Bool(ha.val < hb.val)
	}
	return op(tb.Extract(a, int(n-w)-1, 0), tb.Extract(b, int(n-w)-1, 0))
}

func (tb *TB) Slt(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.Bool(sext(a.val, w) < sext(b.val, w))
	}
	if same(a, b) {
		return tb.False
	}
	za, zb := tb.topZero(a), tb.topZero(b)
	if za && zb {
		return tb.Ult(a, b)
	}
	if za && b.isConst() { // b negative
		return tb.False
	}
	if zb && a.isConst() {
		return tb.True
	}
	if a.op == OpSExt && b.op == OpSExt && a.k[0].sort == b.k[0].sort {
		return tb.Slt(a.k[0], b.k[0])
	}
	if v, ok := tb.rangeLess(a, b, false); ok {
		return tb.Bool(v)
	}
	if r := tb.foldIteCmp(tb.Slt, a, b); r != nil {
		return r
	}
	return tb.mk2(OpSlt, SBool, a, b)
}

// rangeLess decides a < b (or a <= b) if the ranges do.
func (tb *TB) rangeLess(a, b *Term, eq bool) (v, ok bool) {
	al, ah, ok := tb.srange(a, 5)
	if !ok {
		return false, false
	}
	bl, bh, ok := tb.srange(b, 5)
	if !ok {
		return false, false
	}
	if ah < bl || eq && ah == bl {
		return true, true
	}
	if al > bh || !eq && al == bh {
		return false, true
	}
	return false, false
}

func (tb *TB) Sle(a, b *Term) *Term {
	w := a.sort
	if a.isConst() && b.isConst() {
		return tb.Bool(sext(a.val, w) <= sext(b.val, w))
	}
	if same(a, b) {
		return tb.True
	}
	za, zb := tb.topZero(a), tb.topZero(b)
	if za && zb {
		return tb.Ule(a, b)
	}
	if za && b.isConst() {
		return tb.False
	}
	if zb && a.isConst() {
		return tb.True
	}
	if a.op == OpSExt && b.op == OpSExt && a.k[0].sort == b.k[0].sort {
		return tb.Sle(a.k[0], b.k[0])
	}
	if v, ok := tb.rangeLess(a, b, true); ok {
		return tb.Bool(v)
	}
	if r := tb.foldIteCmp(tb.Sle, a, b); r != nil {
		return r
	}
	return tb.mk2(OpSle, SBool, a, b)
}

// ---- floats

func fval(t *Term) float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func (tb *TB) fconst(sort uint16, f float64) *Term {
	if sort == SF32 {
		return tb.F32(float32(f))
	}
	return tb.F64(f)
}

func (tb *TB) FromBits(b *Term) *Term {
	s := SF64
	if b.sort == 32 {
		s = SF32
	}
	if b.isConst() {
		return &Term{op: OpConst, sort: s, val: b.val}
	}
	return tb.mk1(OpFromBits, s, 0, b)
}

// evalF computes a float operation concretely.
func evalF(op Op, sort uint16, a, b float64) float64 {
	if sort == SF32 {
		x, y := float32(a), float32(b)
		switch op {
		case OpFAdd:
			return float64(x + y)
		case OpFSub:
			return float64(x - y)
		case OpFMul:
			return float64(x * y)
		case OpFDiv:
			return float64(x / y)
		}
	}
	switch op {
	case OpFAdd:
		return a + b
	case OpFSub:
		return a - b
	case OpFMul:
		return a * b
	case OpFDiv:
		return a / b
	}
	panic("evalF")
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.fconst(a.sort, evalF(op, a.sort, fval(a), fval(b)))
	}
	return tb.mk2(op, a.sort, a, b)
}

func (tb *TB) FNeg(a *Term) *Term {
	if a.isConst() {
		return tb.fconst(a.sort, -fval(a))
	}
	if a.op == OpFromBits {
		w := a.k[0].sort
		return tb.FromBits(tb.BXor(a.k[0], tb.BV(w, uint64(1)<<(w-1))))
	}
	return tb.mk1(OpFNeg, a.sort, 0, a)
}
func (tb *TB) FAbs(a *Term) *Term {
	if a.isConst() {
		return tb.fconst(a.sort, math.Abs(fval(a)))
	}
	if a.op == OpFromBits {
		w := a.k[0].sort
		return tb.FromBits(tb.BAnd(a.k[0], tb.BV(w, mask(w-1))))
	}
	return tb.mk1(OpFAbs, a.sort, 0, a)
}
func (tb *TB) FSqrt(a *Term) *Term {
	if a.isConst() {
		return tb.fconst(a.sort, math.Sqrt(fval(a)))
	}
	return tb.mk1(OpFSqrt, a.sort, 0, a)
}
func (tb *TB) FRnd(a *Term, mode uint64) *Term {
	if a.isConst() {
		return tb.fconst(a.sort, evalRnd(fval(a), mode))
	}
	return tb.mk1(OpFRnd, a.sort, mode, a)
}
func evalRnd(f float64, mode uint64) float64 {
	switch mode {
	case 0:
		return math.RoundToEven(f)
	case 1:
		return math.Trunc(f)
	case 2:
		return math.Floor(f)
	case 3:
		return math.Ceil(f)
	}
	return math.Round(f)
}

func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OpFLt:
			return tb.Bool(x < y)
		case OpFLe:
			return tb.Bool(x <= y)
		default:
			return tb.Bool(x == y)
		}
	}
	if op == OpFLt && a == b {
		return tb.False
	}
	if x, y := tb.fbits(a, 0), tb.fbits(b, 0); x != nil && y != nil {
		// compare the bit patterns
		ok := tb.And(tb.Not(tb.bitsNaN(x)), tb.Not(tb.bitsNaN(y)))
		w := x.sort
		z := tb.BV(w, 0)
		nx, ny := tb.Slt(x, z), tb.Slt(y, z)
		zero := tb.Eq(tb.BAnd(tb.BOr(x, y), tb.BV(w, mask(w-1))), z)
		switch op {
		case OpFEq:
			return tb.And(ok, tb.Or(zero, tb.Eq(x, y)))
		case OpFLe:
			le := tb.Ite(nx, tb.Or(tb.Not(ny), tb.Ule(y, x)), tb.And(tb.Not(ny), tb.Ule(x, y)))
			return tb.And(ok, tb.Or(zero, le))
		default:
			lt := tb.Ite(nx, tb.Or(tb.Not(ny), tb.Ult(y, x)), tb.And(tb.Not(ny), tb.Ult(x, y)))
			return tb.And(ok, tb.And(tb.Not(zero), lt))
		}
	}
	if op == OpFEq && after(a, b) && !a.isConst() && !b.isConst() {
		a, b = b, a
	}
	return tb.mk2(op, SBool, a, b)
}

// fbits returns the bit pattern of a float that is not the result of
// arithmetic, or nil.
func (tb *TB) fbits(a *Term, depth int) *Term {
	switch {
	case a.isConst():
		if a.sort == SF32 {
			return tb.BV(32, a.val)
		}
		return tb.BV(64, a.val)
	case a.op == OpFromBits:
		return a.k[0]
	case a.op == OpIte && depth < 8:
		x, y := tb.fbits(a.k[1], depth+1), tb.fbits(a.k[2], depth+1)
		if x != nil && y != nil {
			return tb.Ite(a.k[0], x, y)
		}
	}
	return nil
}

func (tb *TB) bitsInf(w uint16) *Term {
	if w == 32 {
		return tb.BV(32, 0x7f800000)
	}
	return tb.BV(64, 0x7ff0000000000000)
}

func (tb *TB) bitsNaN(x *Term) *Term {
	return tb.Ult(tb.bitsInf(x.sort), tb.BAnd(x, tb.BV(x.sort, mask(x.sort-1))))
}

func (tb *TB) FIsNaN(a *Term) *Term {
	if a.isConst() {
		f := fval(a)
		return tb.Bool(f != f)
	}
	if x := tb.fbits(a, 0); x != nil {
		return tb.bitsNaN(x)
	}
	return tb.mk1(OpFIsNaN, SBool, 0, a)
}
func (tb *TB) FIsInf(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(math.IsInf(fval(a), 0))
	}
	if x := tb.fbits(a, 0); x != nil {
		return tb.Eq(tb.bitsInf(x.sort), tb.BAnd(x, tb.BV(x.sort, mask(x.sort-1))))
	}
	return tb.mk1(OpFIsInf, SBool, 0, a)
}

func (tb *TB) FToInt(a *Term, w uint16, signed bool) *Term {
	if a.isConst() {
		return tb.BV(w, evalFToInt(fval(a), w, signed))
	}
	// Go's behaviour outside the range is implementation defined; on amd64 it
	// yields 0x8000... for signed 64-bit. Narrower ints are truncations.
	op := OpFToS
	if !signed {
		op = OpFToU
	}
	r := tb.mk1(op, 64, 0, a)
	if w < 64 {
		return tb.Extract(r, int(w)-1, 0)
	}
	return r
}

// float -> int conversions the way amd64 does them.
func evalFToInt(f float64, w uint16, signed bool) uint64 {
	if signed || w < 64 {
		var v int64
		if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			v = math.MinInt64
		} else {
			v = int64(f)
		}
		return uint64(v) & mask(w)
	}
	if f < 9223372036854775808.0 {
		if f != f || f < -9223372036854775808.0 {
			return 1 << 63
		}
		return uint64(int64(f))
	}
	if f >= 18446744073709551616.0 {
		return 1 << 63
	}
	return uint64(f)
}

func (tb *TB) IntToF(a *Term, sort uint16, signed bool) *Term {
	if a.isConst() {
		if signed {
			return tb.fconst2(sort, sext(a.val, a.sort))
		}
		if sort == SF32 {
			return tb.F32(float32(a.val))
		}
		return tb.F64(float64(a.val))
	}
	op := OpUToF
	if signed {
		op = OpSToF
		if k, ok := tb.fewBits(a); ok {
			a = tb.low(a, k)
		}
	}
	return tb.mk1(op, sort, 0, a)
}
func (tb *TB) fconst2(sort uint16, v int64) *Term {
	if sort == SF32 {
		return tb.F32(float32(v))
	}
	return tb.F64(float64(v))
}

func (tb *TB) FToF(a *Term, sort uint16) *Term {
	if a.sort == sort {
		return a
	}
	if a.isConst() {
		if sort == SF32 {
			return tb.F32(float32(fval(a)))
		}
		return tb.F64(float64(math.Float32frombits(uint32(a.val))))
	}
	return tb.mk1(OpFToF, sort, 0, a)
}

// ---- crc

var crcTabs = map[uint64]*crc32.Table{}

func init() {
	for _, p := range []uint64{crc32.IEEE, crc32.Castagnoli, crc32.Koopman} {
		crcTabs[p] = crc32.MakeTable(uint32(p))
	}
}

func crcStep(poly uint64, crc uint32, b byte) uint32 {
	return crcTabs[poly][byte(crc)^b] ^ crc>>8
}

func (tb *TB) Crc(poly uint64, crc, b *Term) *Term {
	if crc.isConst() && b.isConst() {
		return tb.BV(32, uint64(crcStep(poly, uint32(crc.val), byte(b.val))))
	}
	t := Term{op: OpCrc, sort: 32, val: poly, n: 2, k: [3]*Term{crc, b}}
	return tb.intern(t)
}

// ---- evaluation under a model (missing vars are 0)

type Model map[string]uint64

func (tb *TB) Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return tb.Eval(t.k[i], m, memo) }
	evf := func(i int) float64 {
		v := tb.Eval(t.k[i], m, memo)
		if t.k[i].sort == SF32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	fb := func(f float64) uint64 {
		if t.sort == SF32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	w := t.sort
	switch t.op {
	case OpVar:
		r = m[t.name]
	case OpNot:
		r = 1 - ev(0)
	case OpAnd:
		r = ev(0)
		if r == 1 {
			r = ev(1)
		}
	case OpOr:
		r = ev(0)
		if r == 0 {
			r = ev(1)
		}
	case OpIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpEq:
		r = bo(ev(0) == ev(1))
	case OpAdd:
		r = (ev(0) + ev(1)) & mask(w)
	case OpSub:
		r = (ev(0) - ev(1)) & mask(w)
	case OpMul:
		r = (ev(0) * ev(1)) & mask(w)
	case OpUDiv:
		a, b := ev(0), ev(1)
		if b == 0 {
			r = mask(w)
		} else {
			r = a / b
		}
	case OpURem:
		a, b := ev(0), ev(1)
		if b == 0 {
			r = a
		} else {
			r = a % b
		}
	case OpSDiv, OpSRem:
		a, b := sext(ev(0), w), sext(ev(1), w)
		if b == 0 {
			if t.op == OpSRem {
				r = uint64(a) & mask(w)
			} else if a >= 0 {
				r = mask(w)
			} else {
				r = 1
			}
		} else if b == -1 {
			if t.op == OpSDiv {
				r = uint64(-a) & mask(w)
			}
		} else if t.op == OpSDiv {
			r = uint64(a/b) & mask(w)
		} else {
			r = uint64(a%b) & mask(w)
		}
	case OpBAnd:
		r = ev(0) & ev(1)
	case OpBOr:
		r = ev(0) | ev(1)
	case OpBXor:
		r = ev(0) ^ ev(1)
	case OpBNot:
		r = ^ev(0) & mask(w)
	case OpNeg:
		r = -ev(0) & mask(w)
	case OpShl:
		s := ev(1)
		if s < uint64(w) {
			r = ev(0) << s & mask(w)
		}
	case OpLShr:
		s := ev(1)
		if s < uint64(w) {
			r = ev(0) >> s
		}
	case OpAShr:
		s := ev(1)
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		r = uint64(sext(ev(0), w)>>s) & mask(w)
	case OpConcat:
		r = ev(0)<<t.k[1].sort | ev(1)
	case OpExtract:
		r = ev(0) >> (t.val & 0xff) & mask(w)
	case OpSExt:
		r = uint64(sext(ev(0), t.k[0].sort)) & mask(w)
	case OpUlt:
		r = bo(ev(0) < ev(1))
	case OpUle:
		r = bo(ev(0) <= ev(1))
	case OpSlt:
		r = bo(sext(ev(0), t.k[0].sort) < sext(ev(1), t.k[0].sort))
	case OpSle:
		r = bo(sext(ev(0), t.k[0].sort) <= sext(ev(1), t.k[0].sort))
	case OpFromBits:
		r = ev(0)
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		r = fb(evalF(t.op, t.sort, evf(0), evf(1)))
	case OpFNeg:
		r = fb(-evf(0))
	case OpFAbs:
		r = fb(math.Abs(evf(0)))
	case OpFSqrt:
		r = fb(math.Sqrt(evf(0)))
	case OpFRnd:
		r = fb(evalRnd(evf(0), t.val))
	case OpFLt:
		r = bo(evf(0) < evf(1))
	case OpFLe:
		r = bo(evf(0) <= evf(1))
	case OpFEq:
		r = bo(evf(0) == evf(1))
	case OpFIsNaN:
		f := evf(0)
		r = bo(f != f)
	case OpFIsInf:
		r = bo(math.IsInf(evf(0), 0))
	case OpFToS:
		r = evalFToInt(evf(0), t.sort, true)
	case OpFToU:
		r = evalFToInt(evf(0), t.sort, false)
	case OpSToF:
		v := sext(ev(0), t.k[0].sort)
		if t.sort == SF32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OpUToF:
		v := ev(0)
		if t.sort == SF32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OpFToF:
		r = fb(evf(0))
	case OpCrc:
		r = uint64(crcStep(t.val, uint32(ev(0)), byte(ev(1))))
	default:
		panic("eval op")
	}
	memo[t] = r
	return r
}

// vars collects the variables of t.
func (tb *TB) vars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if t.op == OpConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		out[t] = true
	}
	for i := 0; i < int(t.n); i++ {
		tb.vars(t.k[i], seen, out)
	}
}

// ---- SMT-LIB printing

func sortStr(s uint16) string {
	switch s {
	case SBool:
		return "Bool"
	case SF64:
		return "Float64"
	case SF32:
		return "Float32"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	}
	if t.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.sort/4, t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort)
}

var rndModes = []string{"RNE", "RTZ", "RTN", "RTP", "RNA"}

func (t *Term) body(ref func(*Term) string) string {
	r := func(i int) string { return ref(t.k[i]) }
	bin := func(s string) string { return "(" + s + " " + r(0) + " " + r(1) + ")" }
	un := func(s string) string { return "(" + s + " " + r(0) + ")" }
	fp := "11 53"
	if t.sort == SF32 {
		fp = "8 24"
	}
	switch t.op {
	case OpNot:
		return un("not")
	case OpAnd:
		return bin("and")
	case OpOr:
		return bin("or")
	case OpIte:
		return "(ite " + r(0) + " " + r(1) + " " + r(2) + ")"
	case OpEq:
		return bin("=")
	case OpAdd:
		return bin("bvadd")
	case OpSub:
		return bin("bvsub")
	case OpMul:
		return bin("bvmul")
	case OpUDiv:
		return bin("bvudiv")
	case OpURem:
		return bin("bvurem")
	case OpSDiv:
		return bin("bvsdiv")
	case OpSRem:
		return bin("bvsrem")
	case OpBAnd:
		return bin("bvand")
	case OpBOr:
		return bin("bvor")
	case OpBXor:
		return bin("bvxor")
	case OpBNot:
		return un("bvnot")
	case OpNeg:
		return un("bvneg")
	case OpShl:
		return bin("bvshl")
	case OpLShr:
		return bin("bvlshr")
	case OpAShr:
		return bin("bvashr")
	case OpConcat:
		return bin("concat")
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, r(0))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.k[0].sort, r(0))
	case OpUlt:
		return bin("bvult")
	case OpUle:
		return bin("bvule")
	case OpSlt:
		return bin("bvslt")
	case OpSle:
		return bin("bvsle")
	case OpFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fp, r(0))
	case OpFAdd:
		return bin("fp.add RNE")
	case OpFSub:
		return bin("fp.sub RNE")
	case OpFMul:
		return bin("fp.mul RNE")
	case OpFDiv:
		return bin("fp.div RNE")
	case OpFNeg:
		return un("fp.neg")
	case OpFAbs:
		return un("fp.abs")
	case OpFSqrt:
		return un("fp.sqrt RNE")
	case OpFRnd:
		return un("fp.roundToIntegral " + rndModes[t.val])
	case OpFLt:
		return bin("fp.lt")
	case OpFLe:
		return bin("fp.leq")
	case OpFEq:
		return bin("fp.eq")
	case OpFIsNaN:
		return un("fp.isNaN")
	case OpFIsInf:
		return un("fp.isInfinite")
	case OpFToS:
		lo := "((_ to_fp 11 53) #xc3e0000000000000)"
		hi := "((_ to_fp 11 53) #x43e0000000000000)"
		if t.k[0].sort == SF32 {
			lo, hi = "((_ to_fp 8 24) #xdf000000)", "((_ to_fp 8 24) #x5f000000)"
		}
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, r(0), r(0), hi, r(0))
	case OpFToU:
		lo := "((_ to_fp 11 53) #xc3e0000000000000)"
		mid := "((_ to_fp 11 53) #x43e0000000000000)"
		hi := "((_ to_fp 11 53) #x43f0000000000000)"
		if t.k[0].sort == SF32 {
			lo, mid, hi = "((_ to_fp 8 24) #xdf000000)", "((_ to_fp 8 24) #x5f000000)", "((_ to_fp 8 24) #x5f800000)"
		}
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) (ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_ubv 64) RTZ %s) #x8000000000000000))",
			lo, r(0), r(0), mid, r(0), mid, r(0), r(0), hi, r(0))
	case OpSToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fp, r(0))
	case OpUToF:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fp, r(0))
	case OpFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fp, r(0))
	case OpCrc:
		return fmt.Sprintf("(crc%x %s %s)", t.val, r(0), r(1))
	}
	panic(fmt.Sprintf("body op %d", t.op))
}

// crcDefs defines the crc step functions as xor networks.
func crcDefs() string {
	var sb strings.Builder
	for poly, tab := range crcTabs {
		// step(crc,b) = xor_{i} bit_i(crc^b low8) * tab[1<<i]  ^ crc>>8
		fmt.Fprintf(&sb, "(define-fun crc%x ((c (_ BitVec 32)) (b (_ BitVec 8))) (_ BitVec 32) (let ((x (bvxor ((_ extract 7 0) c) b))) (concat ", poly)
		for bit := 31; bit >= 0; bit-- {
			var terms []string
			for i := 0; i < 8; i++ {
				if tab[1<<i]>>bit&1 == 1 {
					terms = append(terms, fmt.Sprintf("((_ extract %d %d) x)", i, i))
				}
			}
			if bit < 24 {
				terms = append(terms, fmt.Sprintf("((_ extract %d %d) c)", bit+8, bit+8))
			}
			if len(terms) == 0 {
				sb.WriteString("#b0 ")
			} else if len(terms) == 1 {
				sb.WriteString(terms[0] + " ")
			} else {
				e := terms[0]
				for _, x := range terms[1:] {
					e = "(bvxor " + e + " " + x + ")"
				}
				sb.WriteString(e + " ")
			}
		}
		sb.WriteString(")))\n")
	}
	return sb.String()
}

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		if t.op == OpConst {
			return constStr(t)
		}
		if t.op == OpVar {
			return t.name
		}
		if d == 0 {
			return "..."
		}
		return t.body(func(k *Term) string { return f(k, d-1) })
	}
	return f(t, 6)
}
