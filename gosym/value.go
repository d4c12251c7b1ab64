package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PathEl struct {
	i   int
	sym *Term // symbolic array index; i unused
}

type PtrV struct {
	obj  int
	path []PathEl
}

type SliceV struct {
	obj         int
	path        []PathEl
	off, ln, cp *Term
}

type StrV struct {
	s       string
	arr     *ArrayV // nil: constant s
	off, ln *Term
}

type StructV struct{ f []Value }

type ArrayV struct {
	e      []Value
	tab    *ConstTab // cached constant table
	notab  bool
	hashed string
}

type TupleV []Value

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
}

type BoundBuiltin struct{ name string }

type MapV struct{ obj int }

type ChanV struct{ obj int }

type Union struct {
	g []*Term
	v []Value
}

type Poison struct{ why string }

type mapEnt struct {
	k, v    Value
	present *Term
}

type MapC struct {
	ents []mapEnt
	idx  map[string]int // canonical concrete key -> entry
	sym  bool           // some key is symbolic
}

type IterC struct {
	isMap bool
	pos   *Term
	str   StrV
	ents  []mapEnt
}

type Unsupported struct{ why string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// ---- heap ----

type Obj struct {
	v      Value
	global *ssa.Global
	typ    types.Type
	tag    string
}

type Heap struct {
	parent *Heap
	objs   map[int]*Obj
	depth  int
	comp   *Heap // this layer merged with smaller ancestors, once frozen
}

func (h *Heap) find(id int) *Obj {
	for x := h; x != nil; x = x.parent {
		if o, ok := x.objs[id]; ok {
			return o
		}
	}
	return nil
}

func (h *Heap) child() *Heap {
	p := h
	if len(h.objs) == 0 && h.parent != nil {
		p = h.parent
	}
	p = p.compact()
	return &Heap{parent: p, objs: map[int]*Obj{}, depth: p.depth + 1}
}

// compact keeps the chain of frozen layers short: a layer is joined with its
// ancestors while they are not much larger than it.
func (h *Heap) compact() *Heap {
	if h.comp != nil {
		return h.comp
	}
	n := len(h.objs)
	x := h
	for x.parent != nil && x.parent.parent != nil && len(x.parent.objs) <= 2*n {
		x = x.parent
		n += len(x.objs)
	}
	if x == h || h.parent == nil {
		h.comp = h
		return h
	}
	c := &Heap{parent: x.parent, objs: make(map[int]*Obj, n), depth: x.depth}
	for l := h; ; l = l.parent {
		for id, o := range l.objs {
			if _, ok := c.objs[id]; !ok {
				c.objs[id] = o
			}
		}
		if l == x {
			break
		}
	}
	c.comp = c
	h.comp = c
	return c
}

func cloneVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		f := make([]Value, len(x.f))
		for i, y := range x.f {
			f[i] = cloneVal(y)
		}
		return &StructV{f}
	case *ArrayV:
		e := make([]Value, len(x.e))
		scalar := len(x.e) > 0
		if scalar {
			_, scalar = x.e[0].(*Term)
		}
		if scalar {
			copy(e, x.e)
			for i, y := range e {
				switch y.(type) {
				case *StructV, *ArrayV:
					e[i] = cloneVal(y)
				}
			}
			return &ArrayV{e: e, tab: x.tab, notab: x.notab}
		}
		for i, y := range x.e {
			e[i] = cloneVal(y)
		}
		return &ArrayV{e: e, tab: x.tab, notab: x.notab}
	case *MapC:
		n := &MapC{ents: append([]mapEnt(nil), x.ents...), idx: make(map[string]int, len(x.idx)), sym: x.sym}
		for k, i := range x.idx {
			n.idx[k] = i
		}
		return n
	case *IterC:
		y := *x
		return &y
	case *Union:
		vs := make([]Value, len(x.v))
		for i, y := range x.v {
			vs[i] = cloneVal(y)
		}
		return &Union{x.g, vs}
	}
	return v
}

// ---- zero values ----

func (e *Engine) width(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := e.width(t); ok {
			return e.c.Const(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return StrV{}
		case types.UnsafePointer, types.UntypedNil:
			return PtrV{}
		}
		return Poison{"float or complex value"}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{off: e.i64(0), ln: e.i64(0), cp: e.i64(0)}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			unsup("array of %d elements", n)
		}
		el := make([]Value, n)
		z := e.zero(u.Elem())
		_, agg1 := z.(*StructV)
		_, agg2 := z.(*ArrayV)
		for i := range el {
			if agg1 || agg2 {
				el[i] = cloneVal(z)
			} else {
				el[i] = z
			}
		}
		return &ArrayV{e: el}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) i64(v int) *Term { return e.c.Const(uint64(v), 64) }

func (s StrV) isConst() bool { return s.arr == nil }

func (e *Engine) strLen(s StrV) *Term {
	if s.arr == nil {
		return e.i64(len(s.s))
	}
	return s.ln
}

// normStr turns a fully concrete symbolic string into a constant one.
func (e *Engine) normStr(s StrV) StrV {
	if s.arr == nil || !s.ln.IsConst() || !s.off.IsConst() {
		return s
	}
	n, o := int(s.ln.k), int(s.off.k)
	if n == 0 {
		return StrV{}
	}
	b := make([]byte, n)
	for i := range b {
		t, ok := s.arr.e[o+i].(*Term)
		if !ok || !t.IsConst() {
			return s
		}
		b[i] = byte(t.k)
	}
	return StrV{s: string(b)}
}

// strAt returns byte i (64-bit term) of the string; in-bounds assumed.
func (e *Engine) strAt(s StrV, i *Term) *Term {
	if s.arr == nil {
		if i.IsConst() {
			if i.k < uint64(len(s.s)) {
				return e.c.Const(uint64(s.s[i.k]), 8)
			}
			return e.c.Const(0, 8)
		}
		d := make([]uint64, len(s.s))
		for j := range d {
			d[j] = uint64(s.s[j])
		}
		return e.c.Select(e.c.Table(8, d), i)
	}
	v := e.arrRead(s.arr, e.c.Bin(OpAdd, s.off, i), 8)
	return v.(*Term)
}

// arrRead reads element idx of an array value; idx is assumed in bounds.
func (e *Engine) arrRead(a *ArrayV, idx *Term, w uint8) Value {
	if idx.IsConst() {
		if idx.k >= uint64(len(a.e)) {
			if w > 0 {
				return e.c.Const(0, w)
			}
			unsup("read beyond array")
		}
		return a.e[idx.k]
	}
	lo, hi := idx.lo, idx.hi
	if len(a.e) == 0 {
		if w > 0 {
			return e.c.Const(0, w)
		}
		unsup("read from empty array")
	}
	if hi >= uint64(len(a.e)) {
		hi = uint64(len(a.e)) - 1
	}
	if lo > hi {
		lo = hi
	}
	if a.tab == nil && !a.notab {
		a.mkTab(e)
	}
	if a.tab != nil {
		return e.c.Select(a.tab, idx)
	}
	var rec func(l, h uint64) Value
	rec = func(l, h uint64) Value {
		if l == h {
			return a.e[l]
		}
		same := true
		for i := l + 1; i <= h; i++ {
			if a.e[i] != a.e[l] {
				same = false
				break
			}
		}
		if same {
			return a.e[l]
		}
		if h-l < 4 {
			r := a.e[h]
			for i := h; i > l; i-- {
				r = e.mergeVal(e.c.Eq(idx, e.i64(int(i-1))), a.e[i-1], r)
			}
			return r
		}
		m := (l + h + 1) / 2
		return e.mergeVal(e.c.Ult(idx, e.c.Const(m, 64)), rec(l, m-1), rec(m, h))
	}
	// comparability: only scalar terms may be compared with != above
	if _, ok := a.e[lo].(*Term); !ok {
		r := a.e[hi]
		for i := hi; i > lo; i-- {
			r = e.mergeVal(e.c.Eq(idx, e.i64(int(i-1))), a.e[i-1], r)
		}
		return r
	}
	for i := lo; i <= hi; i++ {
		if _, ok := a.e[i].(*Term); !ok {
			unsup("mixed array")
		}
	}
	return rec(lo, hi)
}

func (a *ArrayV) mkTab(e *Engine) {
	if len(a.e) < 8 {
		a.notab = true
		return
	}
	d := make([]uint64, len(a.e))
	var w uint8
	for i, v := range a.e {
		t, ok := v.(*Term)
		if !ok || !t.IsConst() || t.w == 0 {
			a.notab = true
			return
		}
		d[i] = t.k
		w = t.w
	}
	a.tab = e.c.Table(w, d)
}

// ---- merging ----

func samePath(a, b []PathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Engine) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.ln == y.ln && x.cp == y.cp
	case StrV:
		y, ok := b.(StrV)
		return ok && x.s == y.s && x.arr == y.arr && x.off == y.off && x.ln == y.ln
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.e {
			if !e.sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && e.sameVal(x.v, y.v)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !e.sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case ChanV:
		y, ok := b.(ChanV)
		return ok && x == y
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.g) != len(y.g) {
			return false
		}
		for i := range x.g {
			if x.g[i] != y.g[i] || !e.sameVal(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case Poison:
		y, ok := b.(Poison)
		return ok && x == y
	}
	return false
}

// mergeVal computes ite(g, a, b).
func (e *Engine) mergeVal(g *Term, a, b Value) Value {
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return e.c.Ite(g, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			f := make([]Value, len(x.f))
			for i := range f {
				f[i] = e.mergeVal(g, x.f[i], y.f[i])
			}
			return &StructV{f}
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok && len(x.e) == len(y.e) {
			if x == y {
				return x
			}
			f := make([]Value, len(x.e))
			for i := range f {
				p, ok1 := x.e[i].(*Term)
				q, ok2 := y.e[i].(*Term)
				if ok1 && ok2 && p == q {
					f[i] = p
				} else {
					f[i] = e.mergeVal(g, x.e[i], y.e[i])
				}
			}
			return &ArrayV{e: f}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			f := make(TupleV, len(x))
			for i := range f {
				f[i] = e.mergeVal(g, x[i], y[i])
			}
			return f
		}
	case PtrV:
		if y, ok := b.(PtrV); ok && x.obj == y.obj && len(x.path) == len(y.path) {
			if samePath(x.path, y.path) {
				return x
			}
			// differing only in array indices
			np := make([]PathEl, len(x.path))
			okm := true
			for i := range np {
				p, q := x.path[i], y.path[i]
				if p == q {
					np[i] = p
				} else if p.sym != nil && q.sym != nil {
					np[i] = PathEl{sym: e.c.Ite(g, p.sym, q.sym)}
				} else {
					okm = false
				}
			}
			if okm {
				return PtrV{x.obj, np}
			}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.obj == y.obj && samePath(x.path, y.path) {
			return SliceV{x.obj, x.path, e.c.Ite(g, x.off, y.off), e.c.Ite(g, x.ln, y.ln), e.c.Ite(g, x.cp, y.cp)}
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.arr == y.arr && x.s == y.s {
				if x.arr == nil {
					return x
				}
				return StrV{arr: x.arr, off: e.c.Ite(g, x.off, y.off), ln: e.c.Ite(g, x.ln, y.ln)}
			}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if x.t == nil && y.t == nil {
				return x
			}
			if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				return IfaceV{x.t, e.mergeVal(g, x.v, y.v)}
			}
		}
	case FuncV:
		if y, ok := b.(FuncV); ok && x.fn == y.fn && len(x.bind) == len(y.bind) {
			f := make([]Value, len(x.bind))
			for i := range f {
				f[i] = e.mergeVal(g, x.bind[i], y.bind[i])
			}
			return FuncV{x.fn, f}
		}
	case MapV:
		if y, ok := b.(MapV); ok && x == y {
			return x
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			return e.mergeMap(g, x, y)
		}
	case *IterC:
		if y, ok := b.(*IterC); ok && x.isMap == y.isMap && e.sameVal(x.str, y.str) && len(x.ents) == len(y.ents) {
			n := *x
			n.pos = e.c.Ite(g, x.pos, y.pos)
			return &n
		}
		unsup("merge of iterators")
	case Poison:
		return x
	}
	if p, ok := b.(Poison); ok {
		return p
	}
	if e.sameVal(a, b) {
		return a
	}
	u := &Union{}
	add := func(g *Term, v Value) {
		if g.IsFalse() {
			return
		}
		for i := range u.v {
			if e.sameVal(u.v[i], v) {
				u.g[i] = e.c.Or(u.g[i], g)
				return
			}
			// same shape values merge inside the union
			if canDirect(u.v[i], v) {
				u.v[i] = e.mergeVal(g, v, u.v[i])
				u.g[i] = e.c.Or(u.g[i], g)
				return
			}
		}
		u.g = append(u.g, g)
		u.v = append(u.v, v)
	}
	ng := e.c.Not(g)
	for _, p := range []struct {
		g *Term
		v Value
	}{{g, a}, {ng, b}} {
		if y, ok := p.v.(*Union); ok {
			for i := range y.v {
				add(e.c.And(p.g, y.g[i]), y.v[i])
			}
		} else {
			add(p.g, p.v)
		}
	}
	if len(u.v) == 1 {
		return u.v[0]
	}
	if len(u.v) > 64 {
		unsup("value union too large")
	}
	return u
}

func canDirect(a, b Value) bool {
	switch x := a.(type) {
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case StrV:
		y, ok := b.(StrV)
		return ok && x.arr != nil && x.arr == y.arr
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] && (x.path[i].sym == nil || y.path[i].sym == nil) {
				return false
			}
		}
		return true
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.fn == y.fn
	}
	return false
}

func (e *Engine) mergeMap(g *Term, x, y *MapC) *MapC {
	// common prefix of entries with identical keys, then the rest guarded
	n := &MapC{idx: map[string]int{}, sym: x.sym || y.sym}
	i := 0
	for i < len(x.ents) && i < len(y.ents) && e.sameVal(x.ents[i].k, y.ents[i].k) {
		p, q := x.ents[i], y.ents[i]
		n.ents = append(n.ents, mapEnt{p.k, e.mergeVal(g, p.v, q.v), e.c.Ite(g, p.present, q.present)})
		i++
	}
	used := map[int]bool{}
	for _, p := range x.ents[i:] {
		hit := -1
		for j := i; j < len(y.ents); j++ {
			if !used[j] && e.sameVal(p.k, y.ents[j].k) {
				hit = j
			}
		}
		if hit >= 0 {
			used[hit] = true
			q := y.ents[hit]
			n.ents = append(n.ents, mapEnt{p.k, e.mergeVal(g, p.v, q.v), e.c.Ite(g, p.present, q.present)})
			continue
		}
		n.ents = append(n.ents, mapEnt{p.k, p.v, e.c.And(g, p.present)})
	}
	for j := i; j < len(y.ents); j++ {
		if !used[j] {
			q := y.ents[j]
			n.ents = append(n.ents, mapEnt{q.k, q.v, e.c.And(e.c.Not(g), q.present)})
		}
	}
	for i, p := range n.ents {
		if ck, ok := e.concKey(p.k); ok {
			n.idx[ck] = i
		}
	}
	return n
}

// concKey gives a canonical string for a fully concrete map key.
func (e *Engine) concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() {
			return fmt.Sprintf("i%d:%d", x.w, x.k), true
		}
	case StrV:
		x = e.normStr(x)
		if x.isConst() {
			return "s" + x.s, true
		}
	case PtrV:
		for _, p := range x.path {
			if p.sym != nil && !p.sym.IsConst() {
				return "", false
			}
		}
		return fmt.Sprintf("p%d%v", x.obj, x.path), true
	case IfaceV:
		if x.t == nil {
			return "nil", true
		}
		s, ok := e.concKey(x.v)
		return "I" + x.t.String() + "\x00" + s, ok
	case *StructV:
		var sb strings.Builder
		sb.WriteString("S")
		for _, f := range x.f {
			s, ok := e.concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case *ArrayV:
		var sb strings.Builder
		sb.WriteString("A")
		for _, f := range x.e {
			s, ok := e.concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	}
	return "", false
}

// ---- equality ----

func (e *Engine) eqVal(a, b Value) *Term {
	if u, ok := a.(*Union); ok {
		r := e.c.fls
		for i := range u.v {
			r = e.c.Or(r, e.c.And(u.g[i], e.eqVal(u.v[i], b)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := e.c.fls
		for i := range u.v {
			r = e.c.Or(r, e.c.And(u.g[i], e.eqVal(a, u.v[i])))
		}
		return r
	}
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, b.(*Term))
	case StrV:
		return e.eqStr(x, b.(StrV))
	case PtrV:
		y := b.(PtrV)
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return e.c.fls
		}
		r := e.c.tru
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p == q {
				continue
			}
			pt, qt := p.sym, q.sym
			if pt == nil {
				pt = e.i64(p.i)
			}
			if qt == nil {
				qt = e.i64(q.i)
			}
			r = e.c.And(r, e.c.Eq(pt, qt))
		}
		return r
	case SliceV:
		y := b.(SliceV)
		if x.obj == 0 || y.obj == 0 {
			return e.c.Bool(x.obj == 0 && y.obj == 0)
		}
		unsup("slice comparison")
	case *StructV:
		y := b.(*StructV)
		r := e.c.tru
		for i := range x.f {
			r = e.c.And(r, e.eqVal(x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := e.c.tru
		for i := range x.e {
			r = e.c.And(r, e.eqVal(x.e[i], y.e[i]))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			unsup("interface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return e.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.c.fls
		}
		return e.eqVal(x.v, y.v)
	case FuncV:
		y := b.(FuncV)
		if x.fn == nil || y.fn == nil {
			return e.c.Bool(x.fn == nil && y.fn == nil)
		}
		unsup("func comparison")
	case MapV:
		y := b.(MapV)
		if x.obj == 0 || y.obj == 0 {
			return e.c.Bool(x.obj == y.obj)
		}
		unsup("map comparison")
	case ChanV:
		return e.c.Bool(x == b.(ChanV))
	case Poison:
		unsup("poison: %s", x.why)
	}
	unsup("compare %T", a)
	return nil
}

type strEqKey struct {
	a, b   *ArrayV
	sa, sb string
	oa, la *Term
	ob, lb *Term
}

func (e *Engine) eqStr(x, y StrV) *Term {
	x, y = e.normStr(x), e.normStr(y)
	if x.isConst() && y.isConst() {
		return e.c.Bool(x.s == y.s)
	}
	if x.arr == y.arr && x.off == y.off && x.ln == y.ln {
		return e.c.tru
	}
	lx, ly := e.strLen(x), e.strLen(y)
	r := e.c.Eq(lx, ly)
	if r.IsFalse() {
		return r
	}
	n := min(lx.hi, ly.hi)
	if x.arr != nil {
		n = min(n, uint64(len(x.arr.e)))
	}
	if y.arr != nil {
		n = min(n, uint64(len(y.arr.e)))
	}
	lo := max(lx.lo, ly.lo)
	for i := uint64(0); i < n; i++ {
		q := e.c.Eq(e.strAt(x, e.c.Const(i, 64)), e.strAt(y, e.c.Const(i, 64)))
		if i >= lo {
			q = e.c.Or(q, e.c.Not(e.c.Ult(e.c.Const(i, 64), lx)))
		}
		r = e.c.And(r, q)
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (e *Engine) describe(v Value, m *Evaluator, st *State) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return fmt.Sprint(m.Eval(x))
	case StrV:
		if x.arr == nil {
			return fmt.Sprintf("%q", x.s)
		}
		n, o := m.Eval(x.ln), m.Eval(x.off)
		var b []byte
		for i := uint64(0); i < n && o+i < uint64(len(x.arr.e)); i++ {
			b = append(b, byte(m.Eval(x.arr.e[o+i].(*Term))))
		}
		return fmt.Sprintf("%q", b)
	case SliceV:
		n, o := m.Eval(x.ln), m.Eval(x.off)
		if x.obj == 0 {
			return "[]"
		}
		av, ok := e.loadPath(st, PtrV{x.obj, x.path}).(*ArrayV)
		if !ok {
			return "[?]"
		}
		var parts []string
		for i := uint64(0); i < n && o+i < uint64(len(av.e)); i++ {
			parts = append(parts, e.describe(av.e[o+i], m, st))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *StructV:
		var parts []string
		for _, f := range x.f {
			parts = append(parts, e.describe(f, m, st))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *Union:
		for i := range x.v {
			if m.Eval(x.g[i]) == 1 {
				return e.describe(x.v[i], m, st)
			}
		}
		return "?"
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return e.describe(x.v, m, st)
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
