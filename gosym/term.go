package main

// Term layer: hash-consed boolean and bit-vector expressions (width <= 64)
// with local simplification, unsigned interval and known-zero-bit analysis.

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpIte // bool or bv
	OpEq  // bv or bool -> bool
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // k = hi<<8|lo
	OpZext
	OpSext
	OpSelect // constant table lookup
	OpUF     // uninterpreted function application (name), one argument
)

var opName = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "extract", "zext", "sext", "select", "uf"}

// Term is an immutable hash-consed node. w == 0 means boolean.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	tab     *ConstTab
	id      int
	lo, hi  uint64 // unsigned interval (bv only)
	kz      uint64 // bits known to be zero
	csz     int32  // 1: const; >1: ite DAG over constant leaves, approximate size; 0: no
}

// ConstTab is a constant array used by OpSelect.
type ConstTab struct {
	id    int
	w     uint8
	data  []uint64
	minma map[[2]int][2]uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
	name    string
	tab     int
}

const nSmall = 1 << 10

type Ctx struct {
	tab    map[tkey]*Term
	next   int
	small  [65][]*Term
	tru    *Term
	fls    *Term
	tabs   map[string]*ConstTab
	vars   []*Term
	ufApps []*Term
	ufDom  map[string][]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term, 1<<12), tabs: map[string]*ConstTab{}, ufDom: map[string][]uint64{}}
	c.next = 1
	c.tru = c.mk(tkey{op: OpConst, w: 0, k: 1}, nil, nil, nil, nil)
	c.fls = c.mk(tkey{op: OpConst, w: 0, k: 0}, nil, nil, nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) mk(k tkey, a, b, d *Term, tab *ConstTab) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, a: a, b: b, c: d, k: k.k, name: k.name, tab: tab, id: c.next}
	c.next++
	c.tab[k] = t
	c.analyze(t)
	return t
}

func (c *Ctx) node(op Op, w uint8, a, b, d *Term, kk uint64) *Term {
	k := tkey{op: op, w: w, k: kk}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	t := c.mk(k, a, b, d, nil)
	if w > 0 && t.lo == t.hi {
		return c.Const(t.lo, w)
	}
	return t
}

func (c *Ctx) analyze(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	t.kz = ^m
	switch t.op {
	case OpConst:
		t.lo, t.hi, t.kz = t.k, t.k, ^t.k
		t.csz = 1
	case OpIte:
		if t.w > 0 {
			t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
			t.kz = t.b.kz & t.c.kz
		}
		if t.b.csz > 0 && t.c.csz > 0 && t.b.csz+t.c.csz < 96 {
			t.csz = t.b.csz + t.c.csz + 1
		}
	case OpAdd:
		if t.a.hi <= m-t.b.hi { // no wrap
			t.lo, t.hi = t.a.lo+t.b.lo, t.a.hi+t.b.hi
		}
		// low bits that are zero in both stay zero
		tz := min(bits.TrailingZeros64(^t.a.kz), bits.TrailingZeros64(^t.b.kz))
		t.kz |= mask(uint8(min(tz, 64)))
	case OpSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OpMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OpUDiv:
		if t.b.op == OpConst && t.b.k != 0 {
			t.lo, t.hi = t.a.lo/t.b.k, t.a.hi/t.b.k
		}
	case OpURem:
		if t.b.op == OpConst && t.b.k != 0 {
			t.hi = min(t.b.k-1, t.a.hi)
		}
	case OpBAnd:
		t.kz = t.a.kz | t.b.kz
		t.hi = min(t.a.hi, t.b.hi)
	case OpBOr:
		t.kz = t.a.kz & t.b.kz
		t.lo = max(t.a.lo, t.b.lo)
		if t.a.hi&t.b.hi == 0 && ^t.a.kz&^t.b.kz == 0 {
			t.lo, t.hi = t.a.lo+t.b.lo, t.a.hi+t.b.hi
		}
	case OpBXor:
		t.kz = t.a.kz & t.b.kz
	case OpShl:
		if t.b.op == OpConst && t.b.k < 64 {
			s := t.b.k
			t.kz = ^((^t.a.kz << s) & m)
			if t.a.hi <= m>>s {
				t.lo, t.hi = t.a.lo<<s, t.a.hi<<s
			}
		}
	case OpLshr:
		if t.b.op == OpConst && t.b.k < 64 {
			s := t.b.k
			t.kz = ^((^t.a.kz & mask(t.a.w)) >> s)
			t.lo, t.hi = t.a.lo>>s, t.a.hi>>s
		}
	case OpZext:
		t.lo, t.hi, t.kz = t.a.lo, t.a.hi, t.a.kz|^mask(t.a.w)
	case OpSext:
		if t.a.hi <= mask(t.a.w)>>1 {
			t.lo, t.hi, t.kz = t.a.lo, t.a.hi, t.a.kz|^mask(t.a.w)
		}
	case OpExtract:
		h, l := t.k>>8, t.k&255
		t.kz = ^((^t.a.kz >> l) & m)
		if l == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
		if l > 0 && h == uint64(t.a.w)-1 {
			t.lo, t.hi = t.a.lo>>l, t.a.hi>>l
		}
	case OpSelect:
		lo, hi := t.tab.rng(t.a.lo, t.a.hi)
		t.lo, t.hi = lo, hi
	}
	if t.w > 0 {
		// combine: known-zero bits bound the maximum
		if mx := ^t.kz & m; t.hi > mx {
			t.hi = mx
		}
		if t.hi < m && t.hi < ^uint64(0) {
			t.kz |= ^mask(uint8(bits.Len64(t.hi)))
		}
		if t.lo > t.hi {
			t.lo = 0
		}
	}
}

func (tb *ConstTab) rng(lo, hi uint64) (uint64, uint64) {
	n := uint64(len(tb.data))
	if n == 0 {
		return 0, mask(tb.w)
	}
	if lo >= n {
		lo = 0
	}
	if hi >= n {
		hi = n - 1
	}
	key := [2]int{int(lo), int(hi)}
	if r, ok := tb.minma[key]; ok {
		return r[0], r[1]
	}
	mn, mx := tb.data[lo], tb.data[lo]
	for _, v := range tb.data[lo : hi+1] {
		mn, mx = min(mn, v), max(mx, v)
	}
	tb.minma[key] = [2]uint64{mn, mx}
	return mn, mx
}

func (c *Ctx) Bool(v bool) *Term {
	if v {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	if v < nSmall {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, nSmall)
			c.small[w] = s
		}
		if s[v] == nil {
			s[v] = c.mk(tkey{op: OpConst, w: w, k: v}, nil, nil, nil, nil)
		}
		return s[v]
	}
	return c.mk(tkey{op: OpConst, w: w, k: v}, nil, nil, nil, nil)
}

func (c *Ctx) Var(name string, w uint8) *Term {
	n := len(c.tab)
	t := c.mk(tkey{op: OpVar, w: w, name: name}, nil, nil, nil, nil)
	if len(c.tab) != n {
		c.vars = append(c.vars, t)
	}
	return t
}

// VarRange makes a variable known to lie in [lo,hi]; the caller also asserts it.
func (c *Ctx) VarRange(name string, w uint8, lo, hi uint64) *Term {
	t := c.Var(name, w)
	t.lo, t.hi = lo, hi
	if hi < mask(w) {
		t.kz |= ^mask(uint8(bits.Len64(hi)))
	}
	return t
}

func (c *Ctx) UF(name string, w uint8, a *Term, lo, hi uint64) *Term {
	n := len(c.tab)
	t := c.mk(tkey{op: OpUF, w: w, a: a.id, name: name}, a, nil, nil, nil)
	if len(c.tab) != n {
		c.ufApps = append(c.ufApps, t)
	}
	if w > 0 {
		t.lo, t.hi = lo, hi
		if hi < mask(w) {
			t.kz |= ^mask(uint8(bits.Len64(hi)))
		}
	}
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.a
	}
	return c.node(OpNot, 0, a, nil, nil, 0)
}

func isNeg(a, b *Term) bool {
	return (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.k == 1 {
			return b
		}
		return a
	}
	if b.op == OpConst {
		if b.k == 1 {
			return a
		}
		return b
	}
	if isNeg(a, b) {
		return c.fls
	}
	// absorption, one level
	if a.op == OpOr && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpAnd && (isNeg(a.a, b) || isNeg(a.b, b)) {
		return c.fls
	}
	if b.op == OpAnd && (isNeg(b.a, a) || isNeg(b.b, a)) {
		return c.fls
	}
	// a & (!a | x) = a & x
	if b.op == OpOr {
		if isNeg(b.a, a) {
			return c.And(a, b.b)
		}
		if isNeg(b.b, a) {
			return c.And(a, b.a)
		}
	}
	if a.op == OpOr {
		if isNeg(a.a, b) {
			return c.And(a.b, b)
		}
		if isNeg(a.b, b) {
			return c.And(a.a, b)
		}
	}
	// equalities of one term with two different constants
	if a.op == OpEq && b.op == OpEq && a.a == b.a && a.b.op == OpConst && b.b.op == OpConst && a.b != b.b {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OpConst {
		if a.k == 0 {
			return b
		}
		return a
	}
	if b.op == OpConst {
		if b.k == 0 {
			return a
		}
		return b
	}
	if isNeg(a, b) {
		return c.tru
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return b
	}
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpOr && (isNeg(a.a, b) || isNeg(a.b, b)) {
		return c.tru
	}
	if b.op == OpOr && (isNeg(b.a, a) || isNeg(b.b, a)) {
		return c.tru
	}
	if b.op == OpAnd {
		if isNeg(b.a, a) {
			return c.Or(a, b.b)
		}
		if isNeg(b.b, a) {
			return c.Or(a, b.a)
		}
		if a.op == OpAnd {
			// (x&y) | (x&!y) = x
			if a.a == b.a && isNeg(a.b, b.b) {
				return a.a
			}
			if a.b == b.b && isNeg(a.a, b.a) {
				return a.b
			}
			if a.a == b.b && isNeg(a.b, b.a) {
				return a.a
			}
			if a.b == b.a && isNeg(a.a, b.b) {
				return a.b
			}
		}
	}
	if a.op == OpAnd {
		if isNeg(a.a, b) {
			return c.Or(a.b, b)
		}
		if isNeg(a.b, b) {
			return c.Or(a.a, b)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpOr, 0, a, b, nil, 0)
}

func (c *Ctx) AndAll(ts []*Term) *Term {
	r := c.tru
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.op == OpConst {
		if g.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if g.op == OpNot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
		if a == g {
			return c.Or(g, b)
		}
		if b == g {
			return c.And(g, a)
		}
		if isNeg(a, b) {
			// g == a
			return c.Or(c.And(g, a), c.And(c.Not(g), b))
		}
	}
	// nested same guard
	if a.op == OpIte && a.a == g {
		a = a.b
	}
	if b.op == OpIte && b.a == g {
		b = b.c
	}
	if a == b {
		return a
	}
	if b.op == OpIte && b.b == a {
		return c.Ite(c.Or(g, b.a), a, b.c)
	}
	if b.op == OpIte && b.c == a { // ite(g,a,ite(h,x,a)) = ite(!g&h, x, a)
		return c.Ite(c.And(c.Not(g), b.a), b.b, a)
	}
	if a.op == OpIte && a.c == b { // ite(g, ite(h,x,b), b)
		return c.Ite(c.And(g, a.a), a.b, b)
	}
	return c.node(OpIte, a.w, g, a, b, 0)
}

// mapLeaves rewrites an ite DAG with constant leaves.
func (c *Ctx) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	mem := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OpConst {
			return f(t)
		}
		if r, ok := mem[t]; ok {
			return r
		}
		r := c.Ite(t.a, rec(t.b), rec(t.c))
		mem[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return c.fls
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.fls
	}
	if b.op == OpConst {
		if b.k&a.kz != 0 {
			return c.fls
		}
		if a.csz > 1 {
			return c.mapLeaves(a, func(l *Term) *Term { return c.Bool(l.k == b.k) })
		}
		switch a.op {
		case OpZext:
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpAdd:
			if a.b.op == OpConst {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OpSub:
			if a.b.op == OpConst {
				return c.Eq(a.a, c.Const(b.k+a.b.k, a.w))
			}
		case OpBXor:
			if a.b.op == OpConst {
				return c.Eq(a.a, c.Const(b.k^a.b.k, a.w))
			}
		case OpIte:
			// one branch excluded by range
			if b.k < a.b.lo || b.k > a.b.hi {
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if b.k < a.c.lo || b.k > a.c.hi {
				return c.And(a.a, c.Eq(a.b, b))
			}
			if a.b.op == OpConst || a.c.op == OpConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		}
		return c.node(OpEq, 0, a, b, nil, 0)
	}
	if a.csz > 1 && b.csz > 1 && int(a.csz)*int(b.csz) <= 1024 {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Eq(b, l) })
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	// x+k1 = x+k2 style
	if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpAdd && a.a == b && a.b.op == OpConst {
		return c.fls // nonzero constant
	}
	if b.op == OpAdd && b.a == a && b.b.op == OpConst {
		return c.fls
	}
	if a.op == OpIte && b.op == OpIte && a.a == b.a {
		return c.Ite(a.a, c.Eq(a.b, b.b), c.Eq(a.c, b.c))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.node(OpEq, 0, a, b, nil, 0)
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m
	}
	panic("evalBin")
}

func commut(op Op) bool {
	return op == OpAdd || op == OpMul || op == OpBAnd || op == OpBOr || op == OpBXor
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Const(evalBin(op, a.k, b.k, w), w)
	}
	if commut(op) && a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		k := b.k
		switch op {
		case OpAdd:
			if k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return c.Bin(OpAdd, a.a, c.Const(a.b.k+k, w))
			}
			if a.op == OpSub && a.b.op == OpConst {
				return c.Bin(OpAdd, a.a, c.Const(k-a.b.k, w))
			}
		case OpSub:
			if k == 0 {
				return a
			}
			return c.Bin(OpAdd, a, c.Const(-k, w))
		case OpMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if k&(k-1) == 0 {
				return c.Bin(OpShl, a, c.Const(uint64(bits.TrailingZeros64(k)), w))
			}
		case OpUDiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OpLshr, a, c.Const(uint64(bits.TrailingZeros64(k)), w))
			}
		case OpURem:
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OpBAnd, a, c.Const(k-1, w))
			}
			if k != 0 && a.hi < k {
				return a
			}
		case OpSDiv:
			if k == 1 {
				return a
			}
			if a.hi <= mask(w)>>1 && k <= mask(w)>>1 {
				return c.Bin(OpUDiv, a, b)
			}
		case OpSRem:
			if a.hi <= mask(w)>>1 && k <= mask(w)>>1 && k != 0 {
				return c.Bin(OpURem, a, b)
			}
		case OpBAnd:
			if k == 0 {
				return b
			}
			if ^(a.kz|k) == 0 || (^a.kz&^k)&mask(w) == 0 {
				return a
			}
			if a.op == OpBAnd && a.b.op == OpConst {
				return c.Bin(OpBAnd, a.a, c.Const(a.b.k&k, w))
			}
			if a.op == OpBOr {
				// distribute when one side vanishes
				if ^a.a.kz&k == 0 {
					return c.Bin(OpBAnd, a.b, b)
				}
				if ^a.b.kz&k == 0 {
					return c.Bin(OpBAnd, a.a, b)
				}
			}
			if ^a.kz&k&mask(w) == 0 {
				return c.Const(0, w)
			}
		case OpBOr:
			if k == 0 {
				return a
			}
			if k == mask(w) {
				return b
			}
		case OpBXor:
			if k == 0 {
				return a
			}
			if k == mask(w) {
				return c.BNot(a)
			}
		case OpShl:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(0, w)
			}
			if a.op == OpShl && a.b.op == OpConst && a.b.k+k < 256 {
				return c.Bin(OpShl, a.a, c.Const(a.b.k+k, w))
			}
		case OpLshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) || a.hi>>k == 0 {
				return c.Const(0, w)
			}
			if a.op == OpZext {
				if k >= uint64(a.a.w) {
					return c.Const(0, w)
				}
				return c.Zext(c.Bin(OpLshr, a.a, c.Const(k, a.a.w)), w)
			}
		case OpAshr:
			if k == 0 {
				return a
			}
			if a.hi <= mask(w)>>1 {
				return c.Bin(OpLshr, a, b)
			}
		}
		if a.csz > 1 {
			return c.mapLeaves(a, func(l *Term) *Term { return c.Bin(op, l, b) })
		}
	} else {
		if a.op == OpConst {
			if a.k == 0 && (op == OpShl || op == OpLshr || op == OpAshr) {
				return a
			}
			if b.csz > 1 {
				return c.mapLeaves(b, func(l *Term) *Term { return c.Bin(op, a, l) })
			}
		}
		if a == b {
			switch op {
			case OpSub, OpBXor:
				return c.Const(0, w)
			case OpBAnd, OpBOr:
				return a
			}
		}
		if op == OpSub {
			if a.op == OpAdd && a.a == b {
				return a.b
			}
			if a.op == OpAdd && a.b == b {
				return a.a
			}
			if a.op == OpAdd && b.op == OpAdd && a.b.op == OpConst && b.b.op == OpConst && a.a == b.a {
				return c.Const(a.b.k-b.b.k, w)
			}
			if b.op == OpAdd && b.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpSub, a, b.a), c.Const(-b.b.k, w))
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpSub, a.a, b), a.b)
			}
		}
		if op == OpAdd {
			if a.op == OpAdd && a.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpAdd, a.a, b), a.b)
			}
			if b.op == OpAdd && b.b.op == OpConst {
				return c.Bin(OpAdd, c.Bin(OpAdd, a, b.a), b.b)
			}
			// (x-y)+y
			if a.op == OpSub && a.b == b {
				return a.a
			}
			if b.op == OpSub && b.b == a {
				return b.a
			}
		}
		if a.csz > 1 && b.csz > 1 && int(a.csz)*int(b.csz) <= 256 {
			return c.mapLeaves(a, func(l *Term) *Term { return c.Bin(op, l, b) })
		}
	}
	if op == OpAdd && ^a.kz&^b.kz&mask(w) == 0 {
		op = OpBOr // disjoint bits
	}
	if commut(op) && b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return c.node(op, w, a, b, nil, 0)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	if a.csz > 1 {
		return c.mapLeaves(a, c.BNot)
	}
	return c.node(OpBNot, a.w, a, nil, nil, 0)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(-a.k, a.w)
	}
	if a.csz > 1 {
		return c.mapLeaves(a, c.Neg)
	}
	return c.node(OpNeg, a.w, a, nil, nil, 0)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.lo >= b.hi {
		return c.fls
	}
	if b.op == OpConst && b.k == 1 {
		return c.Eq(a, c.Const(0, a.w))
	}
	if a.csz > 1 && (b.op == OpConst || b.csz > 0 && int(a.csz)*int(b.csz) <= 256) {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Ult(l, b) })
	}
	if b.csz > 1 && a.op == OpConst {
		return c.mapLeaves(b, func(l *Term) *Term { return c.Ult(a, l) })
	}
	if a.op == OpZext && b.op == OpConst && b.k <= mask(a.a.w) {
		return c.Ult(a.a, c.Const(b.k, a.a.w))
	}
	if b.op == OpZext && a.op == OpConst && a.k <= mask(b.a.w) {
		return c.Ult(c.Const(a.k, b.a.w), b.a)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.node(OpUlt, 0, a, b, nil, 0)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	h := mask(a.w) >> 1
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if a.hi <= h && b.hi <= h {
		return c.Ult(a, b)
	}
	if a.lo > h && b.lo > h {
		return c.Ult(a, b)
	}
	if a.lo > h && b.hi <= h {
		return c.tru
	}
	if a.hi <= h && b.lo > h {
		return c.fls
	}
	if a.csz > 1 && (b.op == OpConst || b.csz > 0 && int(a.csz)*int(b.csz) <= 256) {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Slt(l, b) })
	}
	if b.csz > 1 && a.op == OpConst {
		return c.mapLeaves(b, func(l *Term) *Term { return c.Slt(a, l) })
	}
	return c.node(OpSlt, 0, a, b, nil, 0)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return c.Const(a.k, w)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	if a.csz > 1 {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Const(l.k, w) })
	}
	return c.node(OpZext, w, a, nil, nil, 0)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return c.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.hi <= mask(a.w)>>1 {
		return c.Zext(a, w)
	}
	if a.csz > 1 {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Sext(l, w) })
	}
	return c.node(OpSext, w, a, nil, nil, 0)
}

func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return c.Const(a.k>>lo, w)
	}
	if (^a.kz>>lo)&mask(w) == 0 {
		return c.Const(0, w)
	}
	switch a.op {
	case OpZext, OpSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if a.op == OpZext && lo < a.a.w {
			return c.Zext(c.Extract(a.a, a.a.w-1, lo), w)
		}
	case OpExtract:
		l := uint8(a.k & 255)
		return c.Extract(a.a, hi+l, lo+l)
	case OpBAnd, OpBOr, OpBXor:
		if w == 1 || lo == 0 || a.b.op == OpConst {
			return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
		}
	case OpBNot:
		return c.BNot(c.Extract(a.a, hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	case OpShl:
		if a.b.op == OpConst {
			s := a.b.k
			if uint64(lo) >= s {
				return c.Extract(a.a, hi-uint8(s), lo-uint8(s))
			}
			if lo == 0 && s < uint64(w) {
				return c.Bin(OpShl, c.Extract(a.a, hi, 0), c.Const(s, w))
			}
		}
	case OpLshr:
		if a.b.op == OpConst && uint64(hi)+a.b.k < uint64(a.w) {
			s := uint8(a.b.k)
			return c.Extract(a.a, hi+s, lo+s)
		}
	case OpIte:
		if a.csz > 1 {
			return c.mapLeaves(a, func(l *Term) *Term { return c.Const(l.k>>lo, w) })
		}
		return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
	}
	return c.node(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (c *Ctx) Table(w uint8, data []uint64) *ConstTab {
	buf := make([]byte, 0, len(data)*2+1)
	buf = append(buf, w)
	for _, v := range data {
		for v >= 128 {
			buf = append(buf, byte(v)|128)
			v >>= 7
		}
		buf = append(buf, byte(v))
	}
	k := string(buf)
	if t, ok := c.tabs[k]; ok {
		return t
	}
	t := &ConstTab{id: len(c.tabs) + 1, w: w, data: data, minma: map[[2]int][2]uint64{}}
	c.tabs[k] = t
	return t
}

func (c *Ctx) Select(tb *ConstTab, idx *Term) *Term {
	if idx.op == OpConst {
		if idx.k < uint64(len(tb.data)) {
			return c.Const(tb.data[idx.k], tb.w)
		}
		return c.Const(0, tb.w)
	}
	if lo, hi := tb.rng(idx.lo, idx.hi); lo == hi {
		return c.Const(lo, tb.w)
	}
	if idx.csz > 1 {
		return c.mapLeaves(idx, func(l *Term) *Term { return c.Select(tb, l) })
	}
	return c.mk(tkey{op: OpSelect, w: tb.w, a: idx.id, tab: tb.id}, idx, nil, nil, tb)
}

// Eval computes the value of a term under an assignment of its variables.
type Evaluator struct {
	ctx  *Ctx
	vals map[string]uint64
	uf   map[string]map[uint64]uint64
	nuf  int
	mem  map[*Term]uint64
}

func NewEvaluator(ctx *Ctx, vals map[string]uint64) *Evaluator {
	return &Evaluator{ctx: ctx, vals: vals, mem: map[*Term]uint64{}}
}

func (e *Evaluator) ufVal(name string, arg uint64) uint64 {
	if e.uf == nil {
		e.uf = map[string]map[uint64]uint64{}
	}
	for e.nuf < len(e.ctx.ufApps) {
		// arguments only contain earlier applications
		t := e.ctx.ufApps[e.nuf]
		e.nuf++
		if v, ok := e.vals[fmt.Sprintf("t%d", t.id)]; ok {
			a := e.Eval(t.a)
			if e.uf[t.name] == nil {
				e.uf[t.name] = map[uint64]uint64{}
			}
			e.uf[t.name][a] = v
		}
	}
	if v, ok := e.uf[name][arg]; ok {
		return v
	}
	if d := e.ctx.ufDom[name]; len(d) > 0 {
		return d[0]
	}
	return 0
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		v, ok := e.vals[t.name]
		if !ok {
			return t.lo
		}
		return v
	}
	if v, ok := e.mem[t]; ok {
		return v
	}
	var v uint64
	switch t.op {
	case OpNot:
		v = 1 - e.Eval(t.a)
	case OpAnd:
		v = b2u(e.Eval(t.a) == 1 && e.Eval(t.b) == 1)
	case OpOr:
		v = b2u(e.Eval(t.a) == 1 || e.Eval(t.b) == 1)
	case OpIte:
		if e.Eval(t.a) == 1 {
			v = e.Eval(t.b)
		} else {
			v = e.Eval(t.c)
		}
	case OpEq:
		v = b2u(e.Eval(t.a) == e.Eval(t.b))
	case OpUlt:
		v = b2u(e.Eval(t.a) < e.Eval(t.b))
	case OpUle:
		v = b2u(e.Eval(t.a) <= e.Eval(t.b))
	case OpSlt:
		v = b2u(sext64(e.Eval(t.a), t.a.w) < sext64(e.Eval(t.b), t.b.w))
	case OpSle:
		v = b2u(sext64(e.Eval(t.a), t.a.w) <= sext64(e.Eval(t.b), t.b.w))
	case OpBNot:
		v = ^e.Eval(t.a) & mask(t.w)
	case OpNeg:
		v = -e.Eval(t.a) & mask(t.w)
	case OpExtract:
		v = (e.Eval(t.a) >> (t.k & 255)) & mask(t.w)
	case OpZext:
		v = e.Eval(t.a)
	case OpSext:
		v = uint64(sext64(e.Eval(t.a), t.a.w)) & mask(t.w)
	case OpSelect:
		i := e.Eval(t.a)
		if i < uint64(len(t.tab.data)) {
			v = t.tab.data[i]
		}
	case OpUF:
		v = e.ufVal(t.name, e.Eval(t.a))
	default:
		v = evalBin(t.op, e.Eval(t.a), e.Eval(t.b), t.w)
	}
	e.mem[t] = v
	return v
}

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	s := "(" + opName[t.op] + t.name
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
