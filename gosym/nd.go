package main

// Intrinsics: the verifnd harness API and environment stubs.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type handler func(e *Engine, st *State, fn *ssa.Function, args []Value, in ssa.Instruction) []Outcome

func (e *Engine) cstr(v Value) string {
	s, ok := v.(StrV)
	if ok {
		s = e.normStr(s)
	}
	if !ok || !s.isConst() {
		unsup("harness name is not constant")
	}
	return s.s
}

func (e *Engine) inputVar(st *State, name Value, i Value, w uint8, lo, hi uint64) *Term {
	n := fmt.Sprintf("%s[%d]", e.cstr(name), int64(e.conc(st, i.(*Term))))
	if e.fixed != nil {
		v, ok := e.fixed[n]
		if !ok {
			v = lo
		}
		return e.c.Const(v, w)
	}
	if t, ok := e.inputIdx[n]; ok {
		if r := e.inputRng[n]; r != [3]uint64{uint64(w), lo, hi} {
			unsup("input %s is used with different ranges", n)
		}
		return t
	}
	var t *Term
	if e.inputRng == nil {
		e.inputRng = map[string][3]uint64{}
	}
	e.inputRng[n] = [3]uint64{uint64(w), lo, hi}
	if w == 0 || (lo == 0 && hi == mask(w)) {
		t = e.c.Var(n, w)
	} else {
		t = e.c.VarRange(n, w, lo, hi)
	}
	e.inputIdx[n] = t
	e.inputs = append(e.inputs, InputVar{n, w, t})
	return t
}

var ndFuncs map[string]handler
var intrinsics map[string]handler

func init() {
	ndFuncs = map[string]handler{
		"U8": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.inputVar(st, a[0], a[1], 8, 0, 255))
		},
		"U32": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.inputVar(st, a[0], a[1], 32, 0, 0xffffffff))
		},
		"Bool": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			t := e.inputVar(st, a[0], a[1], 8, 0, 1)
			return one(st, e.c.Eq(t, e.c.Const(1, 8)))
		},
		"Int": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			lo, hi := e.conc(st, a[2].(*Term)), e.conc(st, a[3].(*Term))
			if lo == hi {
				return one(st, e.c.Const(lo, 64))
			}
			return one(st, e.inputVar(st, a[0], a[1], 64, lo, hi))
		},
		// Split is Int with one unmerged state per value.
		"Split": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			lo, hi := e.conc(st, a[2].(*Term)), e.conc(st, a[3].(*Term))
			if lo == hi {
				return one(st, e.c.Const(lo, 64))
			}
			t := e.inputVar(st, a[0], a[1], 64, lo, hi)
			k := e.conc(st, t)
			st.tag += fmt.Sprintf("/%d:%d", t.id, k)
			return one(st, e.c.Const(k, 64))
		},
		// Fix makes a term concrete by a case split (states stay mergeable).
		"Fix": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.c.Const(e.conc(st, a[0].(*Term)), a[0].(*Term).w))
		},
		"Assume": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			t, _ := e.splitState(st, a[0].(*Term))
			if t == nil {
				return nil
			}
			return one(t)
		},
		"Assert": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			e.addObl(Obligation{label: e.cstr(a[1]), kind: "assert", pc: st.pc, bad: e.c.Not(a[0].(*Term)), pos: e.posOf(in), st: st})
			return one(st)
		},
		"Fail": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			e.addObl(Obligation{label: e.cstr(a[0]), kind: "assert", pc: st.pc, bad: e.c.tru, pos: e.posOf(in), st: st})
			return one(st)
		},
		"Reach": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			e.reaches = append(e.reaches, ReachPt{e.cstr(a[0]), st.pc, st})
			return one(st)
		},
		"Observe": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			e.obs = append(e.obs, Observation{e.cstr(a[0]), st.pc, []Value{a[1]}, st})
			return one(st)
		},
		"Param": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			n := e.cstr(a[0])
			v, ok := e.params[n]
			if !ok {
				unsup("no parameter %s", n)
			}
			return one(st, e.i64(v))
		},
		// Steps is the number of blocks executed so far.
		"Steps": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.i64(st.steps))
		},
		"Native": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.c.fls)
		},
		// SameArray reports whether two byte slices share their backing array
		// start: first elements at the same address.
		"SameStart": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			alts := func(v Value) ([]*Term, []Value) {
				if u, ok := v.(*Union); ok {
					return u.g, u.v
				}
				return []*Term{e.c.Bool(true)}, []Value{v}
			}
			xg, xv := alts(a[0])
			yg, yv := alts(a[1])
			res := e.c.Bool(false)
			for i := range xv {
				for j := range yv {
					x, y := xv[i].(SliceV), yv[j].(SliceV)
					if x.obj == 0 || y.obj == 0 || x.obj != y.obj || !samePath(x.path, y.path) {
						continue
					}
					res = e.c.Or(res, e.c.And(e.c.And(xg[i], yg[j]), e.c.Eq(x.off, y.off)))
				}
			}
			return one(st, res)
		},
		"RefClass": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			cp := a[0].(*Term)
			if cp.IsConst() || !e.abstractRef {
				return e.call(st, fn, a, nil)
			}
			return one(st, e.classUF("cls", cp))
		},
		"OddClass": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.classUF("odd", a[0].(*Term)))
		},
		"Stop": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return nil
		},
	}
	ident := func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
		return one(st, a[0])
	}
	nop := func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
		res := fn.Signature.Results()
		ret := make(TupleV, res.Len())
		for i := range ret {
			ret[i] = e.zero(res.At(i).Type())
		}
		return []Outcome{{st: st, ret: ret}}
	}
	intrinsics = map[string]handler{
		"internal/abi.NoEscape": ident,
		"internal/abi.Escape":   ident,
		"runtime.KeepAlive":     nop,
		"internal/race.Acquire": nop,
		"internal/race.Release": nop,
		"internal/bytealg.Cutover": func(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
			return one(st, e.i64(64))
		},
		"math/bits.TrailingZeros64":         nil,
		"internal/cpu.Initialize":           nop,
		"internal/bytealg.MakeNoZero":       makeNoZero,
		"(*internal/godebug.Setting).Value": nop,
	}
	delete(intrinsics, "math/bits.TrailingZeros64")
}

func makeNoZero(e *Engine, st *State, fn *ssa.Function, a []Value, in ssa.Instruction) []Outcome {
	n := e.conc(st, a[0].(*Term))
	id := e.allocArr(st, types.Typ[types.Uint8], int(n))
	return one(st, SliceV{obj: id, off: e.i64(0), ln: e.c.Const(n, 64), cp: e.c.Const(n, 64)})
}

func (e *Engine) addObl(o Obligation) {
	e.nAssert++
	if o.bad.IsFalse() || e.syntactic(o.st, o.bad) == 0 {
		e.nTrivial++
		return
	}
	e.obls = append(e.obls, o)
}

// classUF is an uninterpreted property class, restricted to the class pairs
// that occur in the Unicode data.
func (e *Engine) classUF(name string, cp *Term) *Term {
	e.c.ufDom[name] = e.classes
	return e.c.UF(name, 8, cp, 0, e.classes[len(e.classes)-1])
}
