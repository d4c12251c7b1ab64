package main

// Semantics of the individual SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitReq asks for a case split on the alternatives of a union register.
type splitReq struct {
	v ssa.Value
	u *Union
}

// concReq asks for a case split on the values of an integer term.
type concReq struct{ t *Term }

func (e *Engine) doSplit(fr *frame, fs *FS, q splitReq) (bool, []forked) {
	r, ok := fr.fi.idx[q.v]
	if !ok {
		e.incomplete(fs.st, "union outside a register")
		return false, nil
	}
	var out []forked
	if forkProf != nil {
		forkProf[fmt.Sprintf("SPLIT %s %s %T", fr.fi.fn, q.v, q.v)]++
	}
	for i := range q.u.v {
		f, pm := e.feasible(fs.st, q.u.g[i])
		if !f {
			continue
		}
		n := fs.fork()
		e.assume(n.st, q.u.g[i])
		if n.st.model == nil {
			n.st.setModel(pm)
		}
		n.regs[r] = q.u.v[i]
		out = append(out, forked{n, true})
		e.nForks++
	}
	return false, out
}

const concMax = 512

func (e *Engine) doConc(fr *frame, fs *FS, in ssa.Instruction, q concReq) (bool, []forked) {
	var out []forked
	if forkProf != nil {
		forkProf["CONC "+e.posOf(in)+" "+in.String()]++
	}
	rest := fs.fork()
	for n := 0; ; n++ {
		if n > concMax {
			e.incomplete(rest.st, "too many values in a case split at "+e.posOf(in))
			break
		}
		// find a value
		conj := rest.st.pc
		var m map[string]uint64
		if rest.st.model != nil {
			m = rest.st.model
		} else {
			e.checkDeadline()
			e.nFeasQ++
			r, mm := e.solver.Check(conj)
			if r == IsUnsat {
				break
			}
			if r == Unknown {
				e.incomplete(rest.st, "solver gave up on a case split at "+e.posOf(in))
				break
			}
			m = mm
		}
		pm := e.addModel(m)
		k := pm.ev.Eval(q.t)
		eq := e.c.Eq(q.t, e.c.Const(k, q.t.w))
		nf := rest.fork()
		e.assume(nf.st, eq)
		nf.st.setModel(pm)
		nf.st.known = append(nf.st.known, knownEq{q.t, k})
		out = append(out, forked{nf, true})
		e.nForks++
		ne := e.c.Not(eq)
		if ok, pm2 := e.feasible(rest.st, ne); !ok {
			break
		} else {
			e.assume(rest.st, ne)
			rest.st.model, rest.st.ev = nil, nil
			if pm2 != nil {
				rest.st.setModel(pm2)
			}
		}
	}
	return false, out
}

// conc returns the concrete value of t in st, requesting a case split if needed.
func (e *Engine) conc(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	for _, k := range st.known {
		if k.t == t {
			return k.k
		}
	}
	if t.op == OpZext {
		return e.conc(st, t.a)
	}
	panic(concReq{t})
}

func (e *Engine) concInt(st *State, t *Term) int {
	v := e.conc(st, t)
	return int(sext64(v, t.w))
}

func (e *Engine) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	if w, _, ok := e.width(t); ok {
		if w == 0 {
			return e.c.Bool(constant.BoolVal(x.Value))
		}
		v := constant.ToInt(x.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return e.c.Const(u, w)
		}
		i, _ := constant.Int64Val(v)
		return e.c.Const(uint64(i), w)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if x.Value.Kind() == constant.String {
			return StrV{s: constant.StringVal(x.Value)}
		}
		return StrV{s: string(rune(x.Int64()))}
	}
	return Poison{"constant of type " + t.String()}
}

func (e *Engine) get(fr *frame, fs *FS, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return PtrV{obj: e.globalObj(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return BoundBuiltin{x.Name()}
	}
	r := fs.regs[fr.fi.idx[v]]
	if r == nil {
		unsup("undefined register %s in %s", v.Name(), fr.fi.fn)
	}
	return r
}

// val is get, with unions split.
func (e *Engine) val(fr *frame, fs *FS, v ssa.Value) Value {
	r := e.get(fr, fs, v)
	switch x := r.(type) {
	case *Union:
		panic(splitReq{v, x})
	case Poison:
		unsup("poison: %s", x.why)
	}
	return r
}

func (e *Engine) term(fr *frame, fs *FS, v ssa.Value) *Term {
	r := e.val(fr, fs, v)
	t, ok := r.(*Term)
	if !ok {
		unsup("%T where a number is expected", r)
	}
	return t
}

// idx64 returns an integer operand sign- or zero-extended to 64 bits.
func (e *Engine) idx64(fr *frame, fs *FS, v ssa.Value) *Term {
	t := e.term(fr, fs, v)
	_, signed, _ := e.width(v.Type())
	if signed {
		return e.c.Sext(t, 64)
	}
	return e.c.Zext(t, 64)
}

func (f *FS) copyRegs(st *State) *FS {
	return &FS{st: st, regs: append([]Value(nil), f.regs...), defers: f.defers[:len(f.defers):len(f.defers)]}
}

// guard checks a run-time condition; the failing side panics.
func (e *Engine) guard(fr *frame, fs *FS, ok *Term, msg string, in ssa.Instruction) bool {
	if ok.IsTrue() {
		return true
	}
	t, f := e.splitState(fs.st, ok)
	if f != nil {
		var ffs *FS
		if t == nil {
			ffs = fs
			ffs.st = f
		} else {
			ffs = fs.copyRegs(f)
		}
		e.raise(fr, ffs, &PanicInfo{msg: "runtime error: " + msg, val: IfaceV{types.Typ[types.String], StrV{s: msg}}, pos: e.posOf(in)})
	}
	if t == nil {
		return false
	}
	fs.st = t
	return true
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func addPath(p []PathEl, el PathEl) []PathEl {
	n := make([]PathEl, len(p)+1)
	copy(n, p)
	n[len(p)] = el
	return n
}

func (e *Engine) elAt(t *Term) PathEl {
	if t.IsConst() {
		return PathEl{i: int(t.k)}
	}
	return PathEl{sym: t}
}

func (e *Engine) step1(fr *frame, fs *FS, b *ssa.BasicBlock, instr ssa.Instruction) (bool, []forked) {
	c := e.c
	set := func(v Value) { fs.regs[fr.fi.idx[instr.(ssa.Value)]] = v }
	switch in := instr.(type) {
	case *ssa.DebugRef:
		return true, nil
	case *ssa.Alloc:
		id := e.alloc(fs.st, e.zero(deref(in.Type())), "alloc")
		set(PtrV{obj: id})
		return true, nil
	case *ssa.UnOp:
		return e.unop(fr, fs, in, set)
	case *ssa.BinOp:
		return e.binop(fr, fs, in, set)
	case *ssa.Store:
		p, ok := e.val(fr, fs, in.Addr).(PtrV)
		if !ok {
			unsup("store address")
		}
		v := e.get(fr, fs, in.Val)
		if p.obj == 0 {
			e.guard(fr, fs, c.fls, "nil pointer dereference", in)
			return false, nil
		}
		e.storePath(fs.st, p, cloneVal(v))
		return true, nil
	case *ssa.FieldAddr:
		p := e.val(fr, fs, in.X).(PtrV)
		if p.obj == 0 {
			e.guard(fr, fs, c.fls, "nil pointer dereference", in)
			return false, nil
		}
		set(PtrV{p.obj, addPath(p.path, PathEl{i: in.Field})})
		return true, nil
	case *ssa.Field:
		s, ok := e.val(fr, fs, in.X).(*StructV)
		if !ok {
			unsup("field of non-struct")
		}
		set(s.f[in.Field])
		return true, nil
	case *ssa.IndexAddr:
		i := e.idx64(fr, fs, in.Index)
		switch x := e.val(fr, fs, in.X).(type) {
		case SliceV:
			if !e.guard(fr, fs, c.Ult(i, x.ln), "index out of range", in) {
				return false, nil
			}
			set(PtrV{x.obj, addPath(x.path, e.elAt(c.Bin(OpAdd, x.off, i)))})
		case PtrV:
			if x.obj == 0 {
				e.guard(fr, fs, c.fls, "nil pointer dereference", in)
				return false, nil
			}
			n := deref(in.X.Type()).Underlying().(*types.Array).Len()
			if !e.guard(fr, fs, c.Ult(i, e.i64(int(n))), "index out of range", in) {
				return false, nil
			}
			set(PtrV{x.obj, addPath(x.path, e.elAt(i))})
		default:
			unsup("index address of %T", x)
		}
		return true, nil
	case *ssa.Index:
		i := e.idx64(fr, fs, in.Index)
		switch x := e.val(fr, fs, in.X).(type) {
		case *ArrayV:
			if !e.guard(fr, fs, c.Ult(i, e.i64(len(x.e))), "index out of range", in) {
				return false, nil
			}
			var w uint8
			if ww, _, ok := e.width(in.Type()); ok {
				w = ww
			}
			set(e.arrRead(x, i, w))
		case StrV:
			if !e.guard(fr, fs, c.Ult(i, e.strLen(x)), "index out of range", in) {
				return false, nil
			}
			set(e.strAt(x, i))
		default:
			unsup("index of %T", x)
		}
		return true, nil
	case *ssa.Slice:
		return e.slice(fr, fs, in, set)
	case *ssa.Lookup:
		return e.lookup(fr, fs, in, set)
	case *ssa.MapUpdate:
		m := e.val(fr, fs, in.Map).(MapV)
		k := e.get(fr, fs, in.Key)
		v := e.get(fr, fs, in.Value)
		if m.obj == 0 {
			e.raise(fr, fs, &PanicInfo{msg: "assignment to entry in nil map", val: IfaceV{types.Typ[types.String], StrV{s: "nil map"}}, pos: e.posOf(in)})
			return false, nil
		}
		e.noteWrite(fs.st, PtrV{obj: m.obj})
		o := e.objW(fs.st, m.obj)
		e.mapPut(fs.st, o.v.(*MapC), k, cloneVal(v))
		return true, nil
	case *ssa.MakeMap:
		id := e.alloc(fs.st, &MapC{idx: map[string]int{}}, "map")
		set(MapV{id})
		return true, nil
	case *ssa.MakeSlice:
		n := e.conc(fs.st, e.idx64(fr, fs, in.Len))
		cp := e.conc(fs.st, e.idx64(fr, fs, in.Cap))
		if int64(n) < 0 || int64(cp) < int64(n) {
			e.guard(fr, fs, c.fls, "makeslice: len out of range", in)
			return false, nil
		}
		if cp > 1<<22 {
			unsup("slice of %d elements", cp)
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		id := e.allocArr(fs.st, et, int(cp))
		set(SliceV{obj: id, off: e.i64(0), ln: c.Const(n, 64), cp: c.Const(cp, 64)})
		return true, nil
	case *ssa.MakeChan:
		unsup("channel")
	case *ssa.MakeInterface:
		v := e.get(fr, fs, in.X)
		set(IfaceV{in.X.Type(), cloneVal(v)})
		return true, nil
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			f.bind = append(f.bind, e.get(fr, fs, x))
		}
		set(f)
		return true, nil
	case *ssa.ChangeType:
		v := e.get(fr, fs, in.X)
		set(v)
		return true, nil
	case *ssa.ChangeInterface:
		set(e.get(fr, fs, in.X))
		return true, nil
	case *ssa.Convert:
		return e.convert(fr, fs, in, in.X, in.Type(), set)
	case *ssa.MultiConvert:
		return e.convert(fr, fs, in, in.X, in.Type(), set)
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, fs, in.X).(SliceV)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if !e.guard(fr, fs, c.Ule(e.i64(int(n)), s.ln), "slice to array conversion", in) {
			return false, nil
		}
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				unsup("slice to array pointer")
			}
		}
		// only the array itself is used
		s.ln = e.i64(int(n))
		set(s)
		return true, nil
	case *ssa.Extract:
		tv, ok := e.val(fr, fs, in.Tuple).(TupleV)
		if !ok {
			unsup("extract")
		}
		set(tv[in.Index])
		return true, nil
	case *ssa.TypeAssert:
		return e.typeAssert(fr, fs, in, set)
	case *ssa.Range:
		switch x := e.val(fr, fs, in.X).(type) {
		case StrV:
			id := e.alloc(fs.st, &IterC{pos: e.i64(0), str: x}, "iter")
			set(PtrV{obj: id})
		case MapV:
			it := &IterC{isMap: true, pos: e.i64(0)}
			if x.obj != 0 {
				it.ents = append(it.ents, e.obj(fs.st, x.obj).v.(*MapC).ents...)
				if len(it.ents) > 1 && e.inInit == 0 {
					e.mapRange = true
					if e.mapRev {
						slices.Reverse(it.ents)
					}
				}
			}
			id := e.alloc(fs.st, it, "iter")
			set(PtrV{obj: id})
		default:
			unsup("range over %T", x)
		}
		return true, nil
	case *ssa.Next:
		return e.next(fr, fs, in, set)
	case *ssa.Call:
		return e.doCall(fr, fs, in, set)
	case *ssa.Defer:
		fv, args := e.prepCall(fr, fs, in, &in.Call)
		if fv == nil {
			return false, nil
		}
		fs.defers = append(fs.defers[:len(fs.defers):len(fs.defers)], deferred{fv, args, &in.Call})
		return true, nil
	case *ssa.RunDefers:
		if len(fs.defers) == 0 {
			return true, nil
		}
		saved := fs.st.pan
		fs.st.pan = nil
		outs := e.runDefers(fr, fs)
		var forks []forked
		for _, o := range outs {
			o.st.pan = saved
			if o.pan != nil {
				fr.outs = append(fr.outs, o)
				continue
			}
			n := fs.copyRegs(o.st)
			n.defers = nil
			forks = append(forks, forked{n, false})
		}
		return false, forks
	case *ssa.Return:
		ret := make(TupleV, len(in.Results))
		for i, r := range in.Results {
			ret[i] = cloneVal(e.get(fr, fs, r))
		}
		e.finish(fr, fs, ret)
		return false, nil
	case *ssa.Jump:
		e.edge(fr, fs, b, 0)
		return false, nil
	case *ssa.If:
		cond := e.term(fr, fs, in.Cond)
		var t, f *State
		if e.lazy && e.merge && fr.fi.lazy[b.Index] {
			t, f = e.splitLazy(fs.st, cond)
		} else {
			t, f = e.splitState(fs.st, cond)
		}
		if forkProf != nil && t != nil && f != nil {
			forkProf[fmt.Sprintf("%s b%d %s", e.posOf(in), b.Index, in.Cond)]++
		}
		switch {
		case t == nil && f == nil:
		case f == nil:
			fs.st = t
			e.edge(fr, fs, b, 0)
		case t == nil:
			fs.st = f
			e.edge(fr, fs, b, 1)
		default:
			n := fs.copyRegs(f)
			fs.st = t
			e.edge(fr, fs, b, 0)
			e.edge(fr, n, b, 1)
		}
		return false, nil
	case *ssa.Panic:
		v := e.get(fr, fs, in.X)
		msg := "panic"
		if iv, ok := v.(IfaceV); ok {
			if sv, ok := iv.v.(StrV); ok && sv.isConst() {
				msg = "panic: " + sv.s
			}
		}
		e.raise(fr, fs, &PanicInfo{msg: msg, val: v, pos: e.posOf(in)})
		return false, nil
	}
	unsup("instruction %T", instr)
	return false, nil
}

func (e *Engine) allocArr(st *State, et types.Type, n int) int {
	el := make([]Value, n)
	z := e.zero(et)
	_, agg1 := z.(*StructV)
	_, agg2 := z.(*ArrayV)
	for i := range el {
		if agg1 || agg2 {
			el[i] = cloneVal(z)
		} else {
			el[i] = z
		}
	}
	return e.alloc(st, &ArrayV{e: el}, "slice")
}

func (e *Engine) unop(fr *frame, fs *FS, in *ssa.UnOp, set func(Value)) (bool, []forked) {
	switch in.Op {
	case token.MUL:
		xv := e.val(fr, fs, in.X)
		if sl, ok := xv.(SliceV); ok { // the array at a slice
			el := make([]Value, e.concInt(fs.st, sl.ln))
			for i := range el {
				el[i] = cloneVal(e.loadPath(fs.st, PtrV{sl.obj, addPath(sl.path, e.elAt(e.c.Bin(OpAdd, sl.off, e.i64(i))))}))
			}
			set(&ArrayV{e: el})
			break
		}
		p, ok := xv.(PtrV)
		if !ok {
			unsup("load address")
		}
		if p.obj == 0 {
			e.guard(fr, fs, e.c.fls, "nil pointer dereference", in)
			return false, nil
		}
		v := e.loadPath(fs.st, p)
		switch v.(type) {
		case *StructV:
			v = cloneVal(v)
		case *ArrayV:
			v = cloneVal(v)
		}
		set(v)
	case token.SUB:
		set(e.c.Neg(e.term(fr, fs, in.X)))
	case token.XOR:
		set(e.c.BNot(e.term(fr, fs, in.X)))
	case token.NOT:
		set(e.c.Not(e.term(fr, fs, in.X)))
	default:
		unsup("unary %s", in.Op)
	}
	return true, nil
}

func (e *Engine) binop(fr *frame, fs *FS, in *ssa.BinOp, set func(Value)) (bool, []forked) {
	c := e.c
	xt := in.X.Type()
	if w, signed, ok := e.width(xt); ok {
		x := e.term(fr, fs, in.X)
		switch in.Op {
		case token.SHL, token.SHR:
			y := e.term(fr, fs, in.Y)
			_, ys, _ := e.width(in.Y.Type())
			if ys {
				if !e.guard(fr, fs, c.Not(c.Slt(y, c.Const(0, y.w))), "negative shift amount", in) {
					return false, nil
				}
			}
			// bring the count to the width of x, saturating
			var cnt *Term
			if y.w <= w {
				cnt = c.Zext(y, w)
			} else {
				big := c.Ule(c.Const(uint64(w), y.w), y)
				cnt = c.Ite(big, c.Const(uint64(w), w), c.Extract(y, w-1, 0))
			}
			switch {
			case in.Op == token.SHL:
				set(c.Bin(OpShl, x, cnt))
			case signed:
				set(c.Bin(OpAshr, x, cnt))
			default:
				set(c.Bin(OpLshr, x, cnt))
			}
			return true, nil
		}
		y := e.term(fr, fs, in.Y)
		if w == 0 {
			switch in.Op {
			case token.EQL:
				set(c.Eq(x, y))
			case token.NEQ:
				set(c.Not(c.Eq(x, y)))
			case token.AND:
				set(c.And(x, y))
			case token.OR:
				set(c.Or(x, y))
			default:
				unsup("bool %s", in.Op)
			}
			return true, nil
		}
		switch in.Op {
		case token.ADD:
			set(c.Bin(OpAdd, x, y))
		case token.SUB:
			set(c.Bin(OpSub, x, y))
		case token.MUL:
			set(c.Bin(OpMul, x, y))
		case token.QUO, token.REM:
			if !e.guard(fr, fs, c.Not(c.Eq(y, c.Const(0, w))), "integer divide by zero", in) {
				return false, nil
			}
			op := OpUDiv
			if in.Op == token.REM {
				op = OpURem
			}
			if signed {
				op = OpSDiv
				if in.Op == token.REM {
					op = OpSRem
				}
			}
			set(c.Bin(op, x, y))
		case token.AND:
			set(c.Bin(OpBAnd, x, y))
		case token.OR:
			set(c.Bin(OpBOr, x, y))
		case token.XOR:
			set(c.Bin(OpBXor, x, y))
		case token.AND_NOT:
			set(c.Bin(OpBAnd, x, c.BNot(y)))
		case token.EQL:
			set(c.Eq(x, y))
		case token.NEQ:
			set(c.Not(c.Eq(x, y)))
		case token.LSS:
			set(e.less(x, y, signed))
		case token.GTR:
			set(e.less(y, x, signed))
		case token.LEQ:
			set(c.Not(e.less(y, x, signed)))
		case token.GEQ:
			set(c.Not(e.less(x, y, signed)))
		default:
			unsup("int %s", in.Op)
		}
		return true, nil
	}
	x, y := e.get(fr, fs, in.X), e.get(fr, fs, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		// comparing an interface with a concrete value
		_, xi := in.X.Type().Underlying().(*types.Interface)
		_, yi := in.Y.Type().Underlying().(*types.Interface)
		if xi && !yi {
			y = IfaceV{in.Y.Type(), y}
		}
		if yi && !xi {
			x = IfaceV{in.X.Type(), x}
		}
		r := e.eqVal(x, y)
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		set(r)
		return true, nil
	}
	// strings
	sx, ok1 := e.val(fr, fs, in.X).(StrV)
	sy, ok2 := e.val(fr, fs, in.Y).(StrV)
	if !ok1 || !ok2 {
		unsup("binary %s on %s", in.Op, xt)
	}
	sx, sy = e.normStr(sx), e.normStr(sy)
	switch in.Op {
	case token.ADD:
		set(e.strConcat(fs.st, sx, sy))
		return true, nil
	case token.LSS:
		set(e.strLess(sx, sy))
	case token.GTR:
		set(e.strLess(sy, sx))
	case token.LEQ:
		set(c.Not(e.strLess(sy, sx)))
	case token.GEQ:
		set(c.Not(e.strLess(sx, sy)))
	default:
		unsup("string %s", in.Op)
	}
	return true, nil
}

func (e *Engine) less(x, y *Term, signed bool) *Term {
	if signed {
		return e.c.Slt(x, y)
	}
	return e.c.Ult(x, y)
}

func (e *Engine) strLess(x, y StrV) *Term {
	if x.isConst() && y.isConst() {
		return e.c.Bool(x.s < y.s)
	}
	lx, ly := e.strLen(x), e.strLen(y)
	n := min(lx.hi, ly.hi)
	if n > 256 {
		unsup("order of long strings")
	}
	// from the end: r = less on suffixes
	r := e.c.Ult(lx, ly)
	for i := int(n) - 1; i >= 0; i-- {
		it := e.i64(i)
		in := e.c.And(e.c.Ult(it, lx), e.c.Ult(it, ly))
		a, b := e.strAt(x, it), e.strAt(y, it)
		r = e.c.Ite(in, e.c.Or(e.c.Ult(a, b), e.c.And(e.c.Eq(a, b), r)), e.c.Ult(lx, ly))
	}
	return r
}

func (e *Engine) strBytes(s StrV, n int) []Value {
	b := make([]Value, n)
	for i := range b {
		b[i] = e.strAt(s, e.i64(i))
	}
	return b
}

func (e *Engine) mkStr(b []Value) StrV {
	return e.normStr(StrV{arr: &ArrayV{e: b}, off: e.i64(0), ln: e.i64(len(b))})
}

func (e *Engine) strConcat(st *State, x, y StrV) StrV {
	if x.isConst() && y.isConst() {
		return StrV{s: x.s + y.s}
	}
	nx := e.concInt(st, e.strLen(x))
	ny := e.concInt(st, e.strLen(y))
	if nx == 0 {
		return y
	}
	if ny == 0 {
		return x
	}
	return e.mkStr(append(e.strBytes(x, nx), e.strBytes(y, ny)...))
}

func (e *Engine) slice(fr *frame, fs *FS, in *ssa.Slice, set func(Value)) (bool, []forked) {
	c := e.c
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = e.idx64(fr, fs, in.Low)
	} else {
		lo = e.i64(0)
	}
	if in.High != nil {
		hi = e.idx64(fr, fs, in.High)
	}
	if in.Max != nil {
		mx = e.idx64(fr, fs, in.Max)
	}
	switch x := e.val(fr, fs, in.X).(type) {
	case StrV:
		n := e.strLen(x)
		if hi == nil {
			hi = n
		}
		if !e.guard(fr, fs, c.And(c.Ule(lo, hi), c.Ule(hi, n)), "slice bounds out of range", in) {
			return false, nil
		}
		if x.arr == nil {
			if lo.IsConst() && hi.IsConst() {
				set(StrV{s: x.s[lo.k:hi.k]})
				return true, nil
			}
			x = StrV{arr: &ArrayV{e: e.strBytes(x, len(x.s))}, off: e.i64(0), ln: n}
		}
		set(e.normStr(StrV{arr: x.arr, off: c.Bin(OpAdd, x.off, lo), ln: c.Bin(OpSub, hi, lo)}))
		return true, nil
	case SliceV:
		if hi == nil {
			hi = x.ln
		}
		top := x.cp
		ok := c.And(c.Ule(lo, hi), c.Ule(hi, x.cp))
		if mx != nil {
			ok = c.AndAll([]*Term{c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, x.cp)})
			top = mx
		}
		if !e.guard(fr, fs, ok, "slice bounds out of range", in) {
			return false, nil
		}
		set(SliceV{x.obj, x.path, c.Bin(OpAdd, x.off, lo), c.Bin(OpSub, hi, lo), c.Bin(OpSub, top, lo)})
		return true, nil
	case PtrV:
		if x.obj == 0 {
			e.guard(fr, fs, c.fls, "nil pointer dereference", in)
			return false, nil
		}
		n := e.i64(int(deref(in.X.Type()).Underlying().(*types.Array).Len()))
		if hi == nil {
			hi = n
		}
		top := n
		ok := c.And(c.Ule(lo, hi), c.Ule(hi, n))
		if mx != nil {
			ok = c.AndAll([]*Term{c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n)})
			top = mx
		}
		if !e.guard(fr, fs, ok, "slice bounds out of range", in) {
			return false, nil
		}
		set(SliceV{x.obj, x.path, lo, c.Bin(OpSub, hi, lo), c.Bin(OpSub, top, lo)})
		return true, nil
	default:
		unsup("slice of %T", x)
	}
	return false, nil
}

// ---- maps ----

// hit is whether entry i holds key k in the given state.
func (e *Engine) hit(st *State, m *MapC, i int, k Value) *Term {
	h := e.c.And(e.eqVal(m.ents[i].k, k), m.ents[i].present)
	if _, str := k.(StrV); str && !h.IsConst() && e.fixed == nil {
		if ok, _ := e.feasible(st, h); !ok {
			return e.c.fls
		}
	}
	return h
}

func (e *Engine) mapPut(st *State, m *MapC, k, v Value) {
	ck, conc := e.concKey(k)
	if conc && m.sym {
		if i, ok := m.idx[ck]; ok && m.ents[i].present.IsTrue() {
			m.ents[i].v = v // keys are unique
			return
		}
	}
	if conc && !m.sym {
		if i, ok := m.idx[ck]; ok {
			m.ents[i].v = v
			m.ents[i].present = e.c.tru
			return
		}
		m.idx[ck] = len(m.ents)
		m.ents = append(m.ents, mapEnt{k, v, e.c.tru})
		return
	}
	found := e.c.fls
	for i := range m.ents {
		hit := e.hit(st, m, i, k)
		if hit.IsFalse() {
			continue
		}
		m.ents[i].v = e.mergeVal(hit, v, m.ents[i].v)
		found = e.c.Or(found, hit)
	}
	if found.IsTrue() {
		return
	}
	if !conc {
		m.sym = true
	} else {
		m.idx[ck] = len(m.ents)
	}
	m.ents = append(m.ents, mapEnt{k, v, e.c.Not(found)})
}

func (e *Engine) mapGet(st *State, m *MapC, k Value, z Value) (Value, *Term) {
	if ck, conc := e.concKey(k); conc && !m.sym {
		if i, ok := m.idx[ck]; ok {
			return e.mergeVal(m.ents[i].present, m.ents[i].v, z), m.ents[i].present
		}
		return z, e.c.fls
	} else if conc {
		if i, ok := m.idx[ck]; ok && m.ents[i].present.IsTrue() {
			return m.ents[i].v, e.c.tru
		}
	}
	r, ok := z, e.c.fls
	for i := range m.ents {
		hit := e.hit(st, m, i, k)
		if hit.IsFalse() {
			continue
		}
		r = e.mergeVal(hit, m.ents[i].v, r)
		ok = e.c.Or(ok, hit)
	}
	return r, ok
}

func (e *Engine) lookup(fr *frame, fs *FS, in *ssa.Lookup, set func(Value)) (bool, []forked) {
	switch x := e.val(fr, fs, in.X).(type) {
	case StrV:
		i := e.idx64(fr, fs, in.Index)
		if !e.guard(fr, fs, e.c.Ult(i, e.strLen(x)), "index out of range", in) {
			return false, nil
		}
		set(e.strAt(x, i))
	case MapV:
		mt := in.X.Type().Underlying().(*types.Map)
		z := e.zero(mt.Elem())
		var v Value = z
		ok := e.c.fls
		if x.obj != 0 {
			v, ok = e.mapGet(fs.st, e.obj(fs.st, x.obj).v.(*MapC), e.get(fr, fs, in.Index), z)
			v = cloneVal(v)
		}
		if in.CommaOk {
			set(TupleV{v, ok})
		} else {
			set(v)
		}
	default:
		unsup("lookup in %T", x)
	}
	return true, nil
}

func (e *Engine) next(fr *frame, fs *FS, in *ssa.Next, set func(Value)) (bool, []forked) {
	p := e.val(fr, fs, in.Iter).(PtrV)
	it := e.obj(fs.st, p.obj).v.(*IterC)
	c := e.c
	if it.isMap {
		i := e.conc(fs.st, it.pos)
		var forks []forked
		for i < uint64(len(it.ents)) && !it.ents[i].present.IsTrue() {
			t, f := e.splitState(fs.st, it.ents[i].present)
			if f == nil {
				break
			}
			if t != nil {
				nf := fs.copyRegs(t)
				e.objW(t, p.obj).v.(*IterC).pos = c.Const(i+1, 64)
				nf.regs[fr.fi.idx[in]] = TupleV{c.tru, it.ents[i].k, it.ents[i].v}
				forks = append(forks, forked{nf, false})
			}
			fs.st = f
			i++
		}
		tt := in.Type().(*types.Tuple)
		if i >= uint64(len(it.ents)) {
			set(TupleV{c.fls, e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type())})
			return true, forks
		}
		ent := it.ents[i]
		e.objW(fs.st, p.obj).v.(*IterC).pos = c.Const(i+1, 64)
		set(TupleV{c.tru, ent.k, ent.v})
		return true, forks
	}
	n := e.strLen(it.str)
	more := c.Ult(it.pos, n)
	t, f := e.splitState(fs.st, more)
	var forks []forked
	if f != nil {
		nf := fs.copyRegs(f)
		nf.regs[fr.fi.idx[in]] = TupleV{c.fls, e.i64(0), c.Const(0, 32)}
		forks = append(forks, forked{nf, false})
	}
	if t == nil {
		return false, forks
	}
	fs.st = t
	fn := e.p.fn("unicode/utf8.DecodeRuneInString")
	if fn == nil {
		unsup("no utf8.DecodeRuneInString")
	}
	str := it.str
	var rest StrV
	if str.arr == nil {
		rest = StrV{arr: &ArrayV{e: e.strBytes(str, len(str.s))}, off: it.pos, ln: c.Bin(OpSub, n, it.pos)}
	} else {
		rest = StrV{arr: str.arr, off: c.Bin(OpAdd, str.off, it.pos), ln: c.Bin(OpSub, n, it.pos)}
	}
	rest = e.normStr(rest)
	outs := e.call(fs.st, fn, []Value{rest}, nil)
	for _, o := range outs {
		if o.pan != nil {
			unsup("panic in string decoding")
		}
		nf := fs.copyRegs(o.st)
		w := e.objW(o.st, p.obj).v.(*IterC)
		nf.regs[fr.fi.idx[in]] = TupleV{c.tru, it.pos, o.ret[0]}
		w.pos = c.Bin(OpAdd, it.pos, o.ret[1].(*Term))
		forks = append(forks, forked{nf, false})
	}
	return false, forks
}

func (e *Engine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.i64(0)
	}
	return e.zero(t)
}

// ---- conversions ----

func (e *Engine) convert(fr *frame, fs *FS, in ssa.Instruction, xv ssa.Value, to types.Type, set func(Value)) (bool, []forked) {
	c := e.c
	from := xv.Type()
	fw, fsig, fok := e.width(from)
	tw, _, tok := e.width(to)
	if fok && tok {
		x := e.term(fr, fs, xv)
		switch {
		case tw < fw:
			set(c.Extract(x, tw-1, 0))
		case tw == fw:
			set(x)
		case fsig:
			set(c.Sext(x, tw))
		default:
			set(c.Zext(x, tw))
		}
		return true, nil
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	// pointers through unsafe.Pointer / uintptr
	x := e.val(fr, fs, xv)
	if p, ok := x.(PtrV); ok {
		set(p)
		return true, nil
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := x.(StrV); ok {
			set(s)
			return true, nil
		}
		if s, ok := x.(SliceV); ok {
			st := from.Underlying().(*types.Slice)
			if w, _, _ := e.width(st.Elem()); w != 8 {
				unsup("[]rune to string")
			}
			set(e.bytesToStr(fs.st, s))
			return true, nil
		}
		if fok { // string(rune)
			v := x.(*Term)
			if v.IsConst() {
				set(StrV{s: string(rune(sext64(v.k, v.w)))})
				return true, nil
			}
			if fsig {
				v = c.Sext(v, 64)
			} else {
				v = c.Zext(v, 64)
			}
			set(e.runeStr(v))
			return true, nil
		}
		unsup("conversion %s to string", from)
	}
	if ts, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		s := e.normStr(x.(StrV))
		w, _, _ := e.width(ts.Elem())
		if w != 8 {
			if !s.isConst() {
				unsup("string to []rune")
			}
			rs := []rune(s.s)
			el := make([]Value, len(rs))
			for i, r := range rs {
				el[i] = c.Const(uint64(r), 32)
			}
			id := e.alloc(fs.st, &ArrayV{e: el}, "runes")
			set(SliceV{obj: id, off: e.i64(0), ln: e.i64(len(rs)), cp: e.i64(len(rs))})
			return true, nil
		}
		n := e.strLen(s)
		mx := 0
		if s.arr != nil {
			mx = len(s.arr.e)
		}
		if n.hi < uint64(mx) || s.arr == nil {
			mx = int(n.hi)
		}
		id := e.alloc(fs.st, &ArrayV{e: e.strBytes(s, mx)}, "bytes")
		set(SliceV{obj: id, off: e.i64(0), ln: n, cp: n})
		return true, nil
	}
	unsup("conversion %s to %s", from, to)
	return false, nil
}

// runeStr is string(r) for a symbolic number of 64 bits.
func (e *Engine) runeStr(v *Term) StrV {
	c := e.c
	k := func(x uint64) *Term { return c.Const(x, 64) }
	bad := c.Or(c.Ult(k(0x10FFFF), v), c.And(c.Ult(k(0xD7FF), v), c.Ult(v, k(0xE000))))
	v = c.Ite(bad, k(0xFFFD), v)
	lt := func(x uint64) *Term { return c.Ult(v, k(x)) }
	b := func(or uint64, sh uint64, mask uint64) *Term {
		return c.Extract(c.Bin(OpBOr, k(or), c.Bin(OpBAnd, c.Bin(OpLshr, v, k(sh)), k(mask))), 7, 0)
	}
	by := func(one, two, three, four *Term) *Term {
		return c.Ite(lt(0x80), one, c.Ite(lt(0x800), two, c.Ite(lt(0x10000), three, four)))
	}
	z := c.Const(0, 8)
	arr := &ArrayV{e: []Value{
		by(c.Extract(v, 7, 0), b(0xC0, 6, 0x1F), b(0xE0, 12, 0x0F), b(0xF0, 18, 0x07)),
		by(z, b(0x80, 0, 0x3F), b(0x80, 6, 0x3F), b(0x80, 12, 0x3F)),
		by(z, z, b(0x80, 0, 0x3F), b(0x80, 6, 0x3F)),
		by(z, z, z, b(0x80, 0, 0x3F)),
	}}
	return e.normStr(StrV{arr: arr, off: e.i64(0), ln: by(e.i64(1), e.i64(2), e.i64(3), e.i64(4))})
}

// bytesToStr snapshots a byte slice.
func (e *Engine) bytesToStr(st *State, s SliceV) StrV {
	if s.obj == 0 || s.ln.hi == 0 {
		return StrV{}
	}
	a := e.loadPath(st, PtrV{s.obj, s.path}).(*ArrayV)
	lo := s.off.lo
	hi := uint64(len(a.e))
	if s.off.hi < hi && s.ln.hi < hi && s.off.hi+s.ln.hi < hi {
		hi = s.off.hi + s.ln.hi
	}
	if lo > hi {
		lo = hi
	}
	sn := &ArrayV{e: append([]Value(nil), a.e[lo:hi]...)}
	return e.normStr(StrV{arr: sn, off: e.c.Bin(OpSub, s.off, e.c.Const(lo, 64)), ln: s.ln})
}

func (e *Engine) implements(t types.Type, to types.Type) bool {
	it, ok := to.Underlying().(*types.Interface)
	if !ok {
		return types.Identical(t, to)
	}
	return types.Implements(t, it)
}

func (e *Engine) typeAssert(fr *frame, fs *FS, in *ssa.TypeAssert, set func(Value)) (bool, []forked) {
	iv, ok := e.val(fr, fs, in.X).(IfaceV)
	if !ok {
		unsup("type assertion on %T", e.get(fr, fs, in.X))
	}
	hit := iv.t != nil && e.implements(iv.t, in.AssertedType)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if hit {
		var v Value = iv.v
		if toIface {
			v = iv
		}
		if in.CommaOk {
			set(TupleV{v, e.c.tru})
		} else {
			set(v)
		}
		return true, nil
	}
	if in.CommaOk {
		set(TupleV{e.zero(in.AssertedType), e.c.fls})
		return true, nil
	}
	e.guard(fr, fs, e.c.fls, "interface conversion", in)
	return false, nil
}

// ---- calls ----

// prepCall evaluates callee and arguments. A nil callee means the state died.
func (e *Engine) prepCall(fr *frame, fs *FS, in ssa.Instruction, call *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if call.IsInvoke() {
		iv, ok := e.val(fr, fs, call.Value).(IfaceV)
		if !ok {
			unsup("method call on %T", e.get(fr, fs, call.Value))
		}
		if iv.t == nil {
			e.guard(fr, fs, e.c.fls, "nil pointer dereference", in)
			return nil, nil
		}
		m := e.p.prog.LookupMethod(iv.t, call.Method.Pkg(), call.Method.Name())
		if m == nil {
			unsup("no method %s on %s", call.Method.Name(), iv.t)
		}
		args = append(args, iv.v)
		for _, a := range call.Args {
			args = append(args, e.get(fr, fs, a))
		}
		return FuncV{fn: m}, args
	}
	fv := e.val(fr, fs, call.Value)
	for _, a := range call.Args {
		v := e.get(fr, fs, a)
		if _, isb := fv.(BoundBuiltin); isb {
			v = e.val(fr, fs, a)
		}
		args = append(args, cloneVal(v))
	}
	if f, ok := fv.(FuncV); ok && f.fn == nil {
		e.guard(fr, fs, e.c.fls, "nil pointer dereference", in)
		return nil, nil
	}
	return fv, args
}

func (e *Engine) doCall(fr *frame, fs *FS, in *ssa.Call, set func(Value)) (bool, []forked) {
	fv, args := e.prepCall(fr, fs, in, &in.Call)
	if fv == nil {
		return false, nil
	}
	outs := e.invoke(fs.st, &in.Call, fv, args, in)
	r := fr.fi.idx[in]
	nres := in.Call.Signature().Results().Len()
	pack := func(t TupleV) Value {
		if nres == 1 {
			return t[0]
		}
		return t
	}
	if bb, ok := fv.(BoundBuiltin); ok {
		_ = bb
		pack = func(t TupleV) Value {
			if len(t) == 1 {
				return t[0]
			}
			return t
		}
	}
	if len(outs) == 1 && outs[0].pan == nil {
		fs.st = outs[0].st
		fs.regs[r] = pack(outs[0].ret)
		return true, nil
	}
	var forks []forked
	for _, o := range outs {
		n := fs.copyRegs(o.st)
		if o.pan != nil {
			e.raise(fr, n, o.pan)
			continue
		}
		n.regs[r] = pack(o.ret)
		forks = append(forks, forked{n, false})
	}
	return false, forks
}

func (e *Engine) invoke(st *State, call *ssa.CallCommon, fv Value, args []Value, in ssa.Instruction) []Outcome {
	switch f := fv.(type) {
	case FuncV:
		return e.callFn(st, f.fn, args, f.bind, in)
	case BoundBuiltin:
		return e.builtin(st, f.name, call, args, in)
	}
	unsup("call of %T", fv)
	return nil
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args, bind []Value, in ssa.Instruction) []Outcome {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if r, ok := e.redirName[name]; ok && r != nil && r != fn {
		e.stubs[name]++
		name0 := name
		fn = r
		name = fn.String()
		if e.p.isND(fn) {
			if strings.HasPrefix(name0, "sync.") || strings.HasPrefix(name0, "(*sync") || strings.HasPrefix(name0, "sync/") {
				e.stateful = true
			}
			e.inModel++
			defer func() { e.inModel-- }()
		}
	}
	if fn.Synthetic == "package initializer" {
		// packages are initialised on first use of their variables
		return []Outcome{{st: st, ret: TupleV{}}}
	}
	if h, ok := intrinsics[name]; ok {
		return h(e, st, fn, args, in)
	}
	if e.p.isND(fn) {
		if h, ok := ndFuncs[fn.Name()]; ok {
			return h(e, st, fn, args, in)
		}
	}
	if fn.Blocks == nil {
		unsup("function without body: %s", name)
	}
	return e.call(st, fn, args, bind)
}

func one(st *State, vs ...Value) []Outcome { return []Outcome{{st: st, ret: TupleV(vs)}} }

// size classes of the Go allocator, for append growth
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(newLen, oldCap, esize int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esize == 0 {
		return newLen
	}
	return roundUpSize(nc*esize) / esize
}

// countCopied adds the work of copying v to the steps.
func countCopied(st *State, v Value) {
	if s, ok := v.(SliceV); ok && s.ln != nil && s.ln.IsConst() {
		st.steps += int(s.ln.k) / 8
	}
}

func (e *Engine) builtin(st *State, name string, call *ssa.CallCommon, args []Value, in ssa.Instruction) []Outcome {
	c := e.c
	switch name {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, x.ln)
		case StrV:
			return one(st, e.strLen(x))
		case *ArrayV:
			return one(st, e.i64(len(x.e)))
		case PtrV:
			return one(st, e.i64(int(deref(call.Args[0].Type()).Underlying().(*types.Array).Len())))
		case MapV:
			if x.obj == 0 {
				return one(st, e.i64(0))
			}
			n := e.i64(0)
			for _, en := range e.obj(st, x.obj).v.(*MapC).ents {
				n = c.Bin(OpAdd, n, c.Ite(en.present, e.i64(1), e.i64(0)))
			}
			return one(st, n)
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, x.cp)
		case *ArrayV:
			return one(st, e.i64(len(x.e)))
		case PtrV:
			return one(st, e.i64(int(deref(call.Args[0].Type()).Underlying().(*types.Array).Len())))
		}
	case "append":
		countCopied(st, args[1])
		return one(st, e.doAppend(st, call, args))
	case "copy":
		countCopied(st, args[1])
		return one(st, e.doCopy(st, args))
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return one(st)
		}
		e.noteWrite(st, PtrV{obj: m.obj})
		mc := e.objW(st, m.obj).v.(*MapC)
		for i := range mc.ents {
			q := e.eqVal(mc.ents[i].k, args[1])
			mc.ents[i].present = c.And(mc.ents[i].present, c.Not(q))
		}
		return one(st)
	case "min", "max":
		r, ok := args[0].(*Term)
		if !ok {
			break
		}
		_, signed, _ := e.width(call.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			l := e.less(t, r, signed)
			if name == "max" {
				l = e.less(r, t, signed)
			}
			r = c.Ite(l, t, r)
		}
		return one(st, r)
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				e.noteWrite(st, PtrV{obj: x.obj})
				e.objW(st, x.obj).v = &MapC{idx: map[string]int{}}
			}
			return one(st)
		case SliceV:
			n := e.concInt(st, x.ln)
			z := e.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < n; i++ {
				e.storePath(st, PtrV{x.obj, addPath(x.path, e.elAt(c.Bin(OpAdd, x.off, e.i64(i))))}, cloneVal(z))
			}
			return one(st)
		}
	case "panic":
		return []Outcome{{st: st, pan: &PanicInfo{msg: "panic", val: args[0], pos: e.posOf(in)}}}
	case "recover":
		if st.pan == nil || st.pan.recovered {
			return one(st, IfaceV{})
		}
		p := *st.pan
		p.recovered = true
		st.pan = &p
		v, ok := p.val.(IfaceV)
		if !ok {
			v = IfaceV{types.Typ[types.String], StrV{s: p.msg}}
		}
		return one(st, v)
	case "print", "println":
		return one(st)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			return []Outcome{{st: st, pan: &PanicInfo{msg: "runtime error: nil pointer dereference", pos: "wrapper"}}}
		}
		return one(st, args[0])
	case "String": // unsafe.String(ptr, len)
		p := args[0].(PtrV)
		n := args[1].(*Term)
		if p.obj == 0 {
			return one(st, StrV{})
		}
		s, ok := e.ptrToSlice(p, n)
		if ok {
			return one(st, e.bytesToStr(st, s))
		}
	case "SliceData":
		s := args[0].(SliceV)
		if s.obj == 0 {
			return one(st, PtrV{})
		}
		return one(st, PtrV{s.obj, addPath(s.path, e.elAt(s.off))})
	case "StringData":
		s := args[0].(StrV)
		n := int(e.strLen(s).hi)
		if n == 0 {
			return one(st, PtrV{})
		}
		if s.arr != nil {
			n = min(n, len(s.arr.e))
		}
		id := e.alloc(st, &ArrayV{e: e.strBytes(s, n)}, "bytes")
		return one(st, PtrV{id, []PathEl{{i: 0}}})
	case "Slice":
		p := args[0].(PtrV)
		n := args[1].(*Term)
		if p.obj == 0 {
			return one(st, e.zero(call.Signature().Results().At(0).Type()))
		}
		if s, ok := e.ptrToSlice(p, n); ok {
			return one(st, s)
		}
	}
	unsup("builtin %s", name)
	return nil
}

func (e *Engine) ptrToSlice(p PtrV, n *Term) (SliceV, bool) {
	if len(p.path) == 0 {
		return SliceV{}, false
	}
	last := p.path[len(p.path)-1]
	off := last.sym
	if off == nil {
		off = e.i64(last.i)
	}
	n = e.c.Zext(n, 64)
	return SliceV{p.obj, p.path[:len(p.path)-1], off, n, n}, true
}

func (e *Engine) doAppend(st *State, call *ssa.CallCommon, args []Value) Value {
	c := e.c
	s := args[0].(SliceV)
	if len(args) == 1 {
		return s
	}
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	var src []Value
	switch y := args[1].(type) {
	case SliceV:
		n := e.concInt(st, y.ln)
		if n == 0 {
			return s
		}
		arr := e.loadPath(st, PtrV{y.obj, y.path}).(*ArrayV)
		w, _, _ := e.width(et)
		if y.off.IsConst() {
			src = append(src, arr.e[y.off.k:y.off.k+uint64(n)]...)
		} else {
			for i := 0; i < n; i++ {
				src = append(src, e.arrRead(arr, c.Bin(OpAdd, y.off, e.i64(i)), w))
			}
		}
	case StrV:
		n := e.concInt(st, e.strLen(y))
		if n == 0 {
			return s
		}
		src = e.strBytes(y, n)
	default:
		unsup("append of %T", y)
	}
	ln := e.concInt(st, s.ln)
	cp := e.concInt(st, s.cp)
	nl := ln + len(src)
	if nl <= cp {
		if s.off.IsConst() {
			a := e.arrW(st, s.obj, s.path)
			for i, v := range src {
				a.e[int(s.off.k)+ln+i] = cloneVal(v)
			}
		} else {
			for i, v := range src {
				e.storePath(st, PtrV{s.obj, addPath(s.path, e.elAt(c.Bin(OpAdd, s.off, e.i64(ln+i))))}, cloneVal(v))
			}
		}
		return SliceV{s.obj, s.path, s.off, e.i64(nl), s.cp}
	}
	nc := growCap(nl, cp, int(e.sizes.Sizeof(et)))
	if nc < nl {
		nc = nl
	}
	if nc > 1<<23 {
		unsup("append to %d elements", nc)
	}
	el := make([]Value, nc)
	w, _, _ := e.width(et)
	if ln > 0 {
		old := e.loadPath(st, PtrV{s.obj, s.path}).(*ArrayV)
		for i := 0; i < ln; i++ {
			if s.off.IsConst() {
				el[i] = old.e[int(s.off.k)+i]
			} else {
				el[i] = e.arrRead(old, c.Bin(OpAdd, s.off, e.i64(i)), w)
			}
			if w == 0 {
				el[i] = cloneVal(el[i])
			}
		}
	}
	for i, v := range src {
		el[ln+i] = cloneVal(v)
	}
	z := e.zero(et)
	for i := nl; i < nc; i++ {
		if w > 0 {
			el[i] = z
		} else {
			el[i] = cloneVal(z)
		}
	}
	id := e.alloc(st, &ArrayV{e: el}, "slice")
	return SliceV{obj: id, off: e.i64(0), ln: e.i64(nl), cp: e.i64(nc)}
}

// arrW returns the array at a path for in-place modification.
func (e *Engine) arrW(st *State, obj int, path []PathEl) *ArrayV {
	for _, p := range path {
		if p.sym != nil {
			unsup("bulk write through a symbolic path")
		}
	}
	p := PtrV{obj, path}
	e.noteWrite(st, p)
	e.objW(st, obj)
	a := e.loadPath(st, p).(*ArrayV)
	a.tab, a.notab = nil, false
	return a
}

func (e *Engine) doCopy(st *State, args []Value) Value {
	c := e.c
	dst := args[0].(SliceV)
	var sl *Term
	var at func(i *Term) Value
	switch y := args[1].(type) {
	case SliceV:
		sl = y.ln
		if y.obj == 0 {
			return e.i64(0)
		}
		a := e.loadPath(st, PtrV{y.obj, y.path}).(*ArrayV)
		snap := &ArrayV{e: append([]Value(nil), a.e...)}
		w := uint8(0)
		if len(snap.e) > 0 {
			if t, ok := snap.e[0].(*Term); ok {
				w = t.w
			}
		}
		at = func(i *Term) Value { return e.arrRead(snap, c.Bin(OpAdd, y.off, i), w) }
	case StrV:
		sl = e.strLen(y)
		at = func(i *Term) Value { return e.strAt(y, i) }
	default:
		unsup("copy from %T", y)
	}
	if dst.obj == 0 {
		return e.i64(0)
	}
	n := c.Ite(c.Ult(dst.ln, sl), dst.ln, sl)
	da := e.loadPath(st, PtrV{dst.obj, dst.path}).(*ArrayV)
	mx := min(n.hi, uint64(len(da.e)))
	if !n.IsConst() && mx > 4096 {
		n = c.Const(e.conc(st, n), 64)
		mx = n.k
	}
	if mx == 0 {
		return n
	}
	if dst.off.IsConst() {
		w := e.arrW(st, dst.obj, dst.path)
		for i := uint64(0); i < mx && dst.off.k+i < uint64(len(w.e)); i++ {
			it := c.Const(i, 64)
			g := c.Ult(it, n)
			if g.IsFalse() {
				break
			}
			w.e[dst.off.k+i] = e.mergeVal(g, cloneVal(at(it)), w.e[dst.off.k+i])
		}
		return n
	}
	// symbolic destination offset: element j gets src[j-off] when off <= j < off+n
	w := e.arrW(st, dst.obj, dst.path)
	for j := dst.off.lo; j < uint64(len(w.e)) && j < dst.off.hi+mx; j++ {
		rel := c.Bin(OpSub, c.Const(j, 64), dst.off)
		g := c.And(c.Ule(dst.off, c.Const(j, 64)), c.Ult(rel, n))
		if g.IsFalse() {
			continue
		}
		w.e[j] = e.mergeVal(g, cloneVal(at(rel)), w.e[j])
	}
	return n
}
