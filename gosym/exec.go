package main

// Symbolic executor over go/ssa with state merging at control-flow joins.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc    []*Term
	heap  *Heap
	model map[string]uint64 // satisfies pc (best effort), may be nil
	ev    *Evaluator
	pan   *PanicInfo // while running deferred calls
	known []knownEq  // terms fixed to constants by case splits
	tag   string     // states with different tags are never merged
	steps int        // blocks executed so far, the most of all merged paths
}

type knownEq struct {
	t *Term
	k uint64
}

type PanicInfo struct {
	msg       string
	val       Value
	pos       string
	recovered bool
}

type Outcome struct {
	st  *State
	ret TupleV
	pan *PanicInfo
}

type Obligation struct {
	label string
	kind  string // assert, panic, unwind
	pc    []*Term
	bad   *Term // violation condition under pc
	pos   string
	st    *State
}

type ReachPt struct {
	label string
	pc    []*Term
	st    *State
}

type Observation struct {
	label string
	pc    []*Term
	vals  []Value
	st    *State
}

type Engine struct {
	c                 *Ctx
	p                 *Program
	solver            *Solver
	base              *Heap
	nextObj           int
	globals           map[*ssa.Global]int
	initDone          map[*ssa.Package]int // 1 running 2 done
	inInit            int
	inModel           int  // within the model of a library function
	mapRange, mapRev  bool // a map is ranged over; backwards
	stateful          bool // package-level state is written or shared
	funcs             map[*ssa.Function]*funcInfo
	merge             bool
	lazy              bool
	params            map[string]int
	inputRng          map[string][3]uint64
	inputIdx          map[string]*Term
	classes           []uint64
	abstractRef       bool
	nAssert, nTrivial int
	fixed             map[string]uint64 // concrete replay values
	varSeq            map[string]int
	inputs            []InputVar
	obls              []Obligation
	reaches           []ReachPt
	obs               []Observation
	incompl           []string
	incoPC            [][]*Term
	loopCap           int
	deadline          time.Time
	depth             int

	// counters
	nStates, nTrans, nMerges, nForks, nInstr, nFeasQ, nFeasHit int
	funcsRun                                                   map[string]int
	qcache                                                     map[string]qres
	pool                                                       []*poolModel
	redirName                                                  map[string]*ssa.Function
	stubs                                                      map[string]int
	sizes                                                      types.Sizes
	uninterp                                                   map[string]bool
	globalWrites                                               []Obligation
	trackWrites                                                bool
	callDepthLimit                                             int
	trace                                                      bool
}

type poolModel struct {
	m  map[string]uint64
	ev *Evaluator
}

type qres struct {
	s Sat
	m map[string]uint64
}

type InputVar struct {
	Name string
	W    uint8
	T    *Term
}

type funcInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	live  [][]int // per block: registers live at entry
	wto   []*wtoEl
	nblk  int
	blkIn []bool
	lazy  []bool // branch at the end of the block does not leave a loop
}

type wtoEl struct {
	b    *ssa.BasicBlock
	body []*wtoEl // nil: plain block; else component with header b
	comp bool
	all  []int // block indices of the component
}

type FS struct {
	st     *State
	regs   []Value
	defers []deferred
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fi      *funcInfo
	pending [][]*FS
	outs    []Outcome
}

func (e *Engine) info(fn *ssa.Function) *funcInfo {
	if fi, ok := e.funcs[fn]; ok {
		return fi
	}
	fi := &funcInfo{fn: fn, idx: map[ssa.Value]int{}, nblk: len(fn.Blocks)}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveness()
	fi.buildWTO()
	e.funcs[fn] = fi
	return fi
}

func (fi *funcInfo) liveness() {
	n := fi.nblk
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	phiUse := make([]map[int]bool, n) // used by successors' phis, at end of block
	for i := range use {
		use[i], def[i], phiUse[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	for _, b := range fi.fn.Blocks {
		i := b.Index
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				// phis are assigned on the edge: live-in as their own register
				for k, ev := range ph.Edges {
					if r, ok := fi.idx[ev]; ok {
						phiUse[b.Preds[k].Index][r] = true
					}
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if r, ok := fi.idx[*op]; ok && !def[i][r] {
					use[i][r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[i][fi.idx[v]] = true
			}
		}
	}
	in := make([]map[int]bool, n)
	for i := range in {
		in[i] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fi.fn.Blocks[k]
			out := map[int]bool{}
			for r := range phiUse[k] {
				out[r] = true
			}
			for _, s := range b.Succs {
				phis := map[int]bool{}
				for _, x := range s.Instrs {
					if ph, ok := x.(*ssa.Phi); ok {
						phis[fi.idx[ph]] = true
					}
				}
				for r := range in[s.Index] {
					if !phis[r] {
						out[r] = true
					}
				}
			}
			add := func(r int) {
				if !in[k][r] {
					in[k][r] = true
					ch = true
				}
			}
			for r := range use[k] {
				add(r)
			}
			for r := range out {
				if !def[k][r] {
					add(r)
				}
			}
			for _, x := range b.Instrs { // phi registers themselves, when used
				if ph, ok := x.(*ssa.Phi); ok {
					r := fi.idx[ph]
					add(r)
				}
			}
		}
	}
	fi.live = make([][]int, n)
	for i := range in {
		for r := range in[i] {
			fi.live[i] = append(fi.live[i], r)
		}
		sort.Ints(fi.live[i])
	}
}

// buildWTO computes Bourdoncle's weak topological order.
func (fi *funcInfo) buildWTO() {
	n := fi.nblk
	if n == 0 {
		return
	}
	dfn := make([]int, n)
	num := 0
	var stack []*ssa.BasicBlock
	const inf = 1 << 30
	var visit func(v *ssa.BasicBlock, part *[]*wtoEl) int
	var component func(v *ssa.BasicBlock) *wtoEl
	component = func(v *ssa.BasicBlock) *wtoEl {
		var part []*wtoEl
		for _, s := range v.Succs {
			if dfn[s.Index] == 0 {
				visit(s, &part)
			}
		}
		return &wtoEl{b: v, comp: true, body: part}
	}
	visit = func(v *ssa.BasicBlock, part *[]*wtoEl) int {
		stack = append(stack, v)
		num++
		dfn[v.Index] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v.Index] {
			dfn[v.Index] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el.Index] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*wtoEl{component(v)}, *part...)
			} else {
				*part = append([]*wtoEl{{b: v}}, *part...)
			}
		}
		return head
	}
	var top []*wtoEl
	visit(fi.fn.Blocks[0], &top)
	if fi.fn.Recover != nil && dfn[fi.fn.Recover.Index] == 0 {
		var t2 []*wtoEl
		visit(fi.fn.Recover, &t2)
		top = append(top, t2...)
	}
	var fill func(el *wtoEl) []int
	fill = func(el *wtoEl) []int {
		r := []int{el.b.Index}
		for _, x := range el.body {
			r = append(r, fill(x)...)
		}
		el.all = r
		return r
	}
	for _, el := range top {
		fill(el)
	}
	fi.wto = top
	// a branch is lazy when it does not decide whether a loop goes on
	fi.lazy = make([]bool, n)
	inner := make([]map[int]bool, n)
	var walk func(els []*wtoEl, cur map[int]bool)
	walk = func(els []*wtoEl, cur map[int]bool) {
		for _, el := range els {
			if el.comp {
				set := map[int]bool{}
				for _, b := range el.all {
					set[b] = true
				}
				inner[el.b.Index] = set
				walk(el.body, set)
			} else {
				inner[el.b.Index] = cur
			}
		}
	}
	walk(top, nil)
	for _, b := range fi.fn.Blocks {
		lz := true
		for _, s := range b.Succs {
			if inner[b.Index] != nil && !inner[b.Index][s.Index] {
				lz = false
			}
		}
		fi.lazy[b.Index] = lz
	}
}

// splitLazy forks without asking the solver; the sides merge again soon.
func (e *Engine) splitLazy(s *State, c *Term) (t, f *State) {
	switch e.syntactic(s, c) {
	case 1:
		return s, nil
	case 0:
		return nil, s
	}
	e.nForks++
	n := s.fork()
	e.assume(s, c)
	e.assume(n, e.c.Not(c))
	return s, n
}

// ---- state handling ----

func (s *State) fork() *State {
	h := s.heap
	s.heap = h.child()
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: h.child(), model: s.model, ev: s.ev, pan: s.pan,
		known: s.known[:len(s.known):len(s.known)], tag: s.tag, steps: s.steps}
	if s.pan != nil {
		p := *s.pan
		n.pan = &p
	}
	s.pc = s.pc[:len(s.pc):len(s.pc)]
	return n
}

func (f *FS) fork() *FS {
	return &FS{st: f.st.fork(), regs: append([]Value(nil), f.regs...), defers: f.defers[:len(f.defers):len(f.defers)]}
}

func (e *Engine) assume(s *State, c *Term) {
	if c.IsTrue() {
		return
	}
	for _, x := range s.pc {
		if x == c {
			return
		}
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], c)
	if s.model != nil && s.ev.Eval(c) != 1 {
		s.model, s.ev = nil, nil
	}
}

// syntactic: 1 implied, 0 refuted, -1 unknown
func (e *Engine) syntactic(s *State, c *Term) int {
	n := 24
	return e.syntacticN(s, c, &n)
}

func (e *Engine) syntacticN(s *State, c *Term, budget *int) int {
	if c.op == OpConst {
		return int(c.k)
	}
	for _, x := range s.pc {
		if x == c {
			return 1
		}
		if isNeg(x, c) {
			return 0
		}
		if x.op == OpEq && x.b.op == OpConst {
			if c.op == OpEq && c.a == x.a && c.b.op == OpConst && c.b != x.b {
				return 0
			}
			if c.op == OpNot && c.a.op == OpEq && c.a.a == x.a && c.a.b.op == OpConst && c.a.b != x.b {
				return 1
			}
		}
	}
	if *budget--; *budget < 0 {
		return -1
	}
	if c.op == OpAnd {
		a, b := e.syntacticN(s, c.a, budget), e.syntacticN(s, c.b, budget)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	}
	if c.op == OpOr {
		a, b := e.syntacticN(s, c.a, budget), e.syntacticN(s, c.b, budget)
		if a == 1 || b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	}
	return -1
}

func (e *Engine) evalPC(pm *poolModel, pc []*Term) bool {
	for i := len(pc) - 1; i >= 0; i-- {
		if pm.ev.Eval(pc[i]) != 1 {
			return false
		}
	}
	return true
}

func (e *Engine) addModel(m map[string]uint64) *poolModel {
	pm := &poolModel{m, e.newEval(m)}
	e.pool = append(e.pool, pm)
	if len(e.pool) > 40 {
		e.pool = append([]*poolModel(nil), e.pool[10:]...)
	}
	return pm
}

func (e *Engine) newEval(m map[string]uint64) *Evaluator { return NewEvaluator(e.c, m) }

func pcKey(pc []*Term, c *Term) string {
	b := make([]byte, 0, len(pc)*4+4)
	for _, t := range pc {
		b = append(b, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	if c != nil {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24), 255)
	}
	return string(b)
}

// feasible reports whether pc && c is satisfiable (unknown counts as feasible).
func (e *Engine) feasible(s *State, c *Term) (bool, *poolModel) {
	switch e.syntactic(s, c) {
	case 0:
		return false, nil
	case 1:
		return true, nil
	}
	if e.fixed != nil {
		unsup("symbolic branch in concrete run")
	}
	if s.model != nil && s.ev.Eval(c) == 1 {
		return true, &poolModel{s.model, s.ev}
	}
	for i := len(e.pool) - 1; i >= 0; i-- {
		pm := e.pool[i]
		if pm.ev.Eval(c) == 1 && e.evalPC(pm, s.pc) {
			e.nFeasHit++
			return true, pm
		}
	}
	key := pcKey(s.pc, c)
	if q, ok := e.qcache[key]; ok {
		if q.s == IsUnsat {
			return false, nil
		}
		if q.m != nil {
			return true, e.addModel(q.m)
		}
		return true, nil
	}
	e.checkDeadline()
	e.nFeasQ++
	if os.Getenv("GOSYM_TRACEQ") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "feas %v pc=%d %s\n", time.Since(t0), len(s.pc), c) }()
	}
	conj := append(append([]*Term(nil), s.pc...), c)
	r, m := e.solver.Check(conj)
	e.qcache[key] = qres{r, m}
	if r == IsUnsat {
		return false, nil
	}
	if r == IsSat {
		return true, e.addModel(m)
	}
	return true, nil
}

type deadlineErr struct{}

func (e *Engine) checkDeadline() {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(deadlineErr{})
	}
}

func (s *State) setModel(pm *poolModel) {
	if pm != nil {
		s.model, s.ev = pm.m, pm.ev
	}
}

// split forks on a condition; returns the state pair (either may be nil). The
// receiver is reused for the surviving side.
func (e *Engine) splitState(s *State, c *Term) (t, f *State) {
	switch e.syntactic(s, c) {
	case 1:
		return s, nil
	case 0:
		return nil, s
	}
	ft, mt := e.feasible(s, c)
	nc := e.c.Not(c)
	var ff bool
	var mf *poolModel
	if !ft {
		// pc implies !c; pc itself may be infeasible after lazy branches
		if s.model == nil {
			ok, pm := e.feasible(s, nc)
			if !ok {
				return nil, nil
			}
			s.setModel(pm)
		}
		return nil, s
	}
	ff, mf = e.feasible(s, nc)
	if !ff {
		return s, nil
	}
	e.nForks++
	n := s.fork()
	e.assume(s, c)
	e.assume(n, nc)
	if s.model == nil {
		s.setModel(mt)
	}
	if n.model == nil {
		n.setModel(mf)
	}
	return s, n
}

// ---- heap access ----

func (e *Engine) alloc(s *State, v Value, tag string) int {
	e.nextObj++
	s.heap.objs[e.nextObj] = &Obj{v: v, tag: tag}
	return e.nextObj
}

func (e *Engine) obj(s *State, id int) *Obj {
	o := s.heap.find(id)
	if o == nil {
		o = e.base.find(id)
	}
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}

func (e *Engine) objW(s *State, id int) *Obj {
	if o, ok := s.heap.objs[id]; ok {
		return o
	}
	o := e.obj(s, id)
	n := &Obj{v: cloneVal(o.v), global: o.global, typ: o.typ, tag: o.tag}
	s.heap.objs[id] = n
	return n
}

func (e *Engine) loadPath(s *State, p PtrV) Value {
	v := e.obj(s, p.obj).v
	return e.walk(v, p.path)
}

func (e *Engine) walk(v Value, path []PathEl) Value {
	for _, el := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[el.i]
		case *ArrayV:
			if el.sym != nil {
				var w uint8
				if len(x.e) > 0 {
					if t, ok := x.e[0].(*Term); ok {
						w = t.w
					}
				}
				v = e.arrRead(x, el.sym, w)
			} else {
				v = x.e[el.i]
			}
		case Poison:
			unsup("poison: %s", x.why)
		default:
			unsup("path through %T", v)
		}
	}
	return v
}

func (e *Engine) storePath(s *State, p PtrV, val Value) {
	e.noteWrite(s, p)
	o := e.objW(s, p.obj)
	o.v = e.update(o.v, p.path, val)
}

func (e *Engine) update(v Value, path []PathEl, val Value) Value {
	if len(path) == 0 {
		return val
	}
	el := path[0]
	switch x := v.(type) {
	case *StructV:
		x.f[el.i] = e.update(x.f[el.i], path[1:], val)
		return x
	case *ArrayV:
		x.tab, x.notab, x.hashed = nil, false, ""
		if el.sym == nil || el.sym.IsConst() {
			i := el.i
			if el.sym != nil {
				i = int(el.sym.k)
			}
			x.e[i] = e.update(x.e[i], path[1:], val)
			return x
		}
		lo, hi := el.sym.lo, el.sym.hi
		if hi >= uint64(len(x.e)) {
			hi = uint64(len(x.e)) - 1
		}
		for i := lo; i <= hi && len(x.e) > 0; i++ {
			g := e.c.Eq(el.sym, e.c.Const(i, 64))
			if g.IsFalse() {
				continue
			}
			old := x.e[i]
			nv := e.update(cloneVal(old), path[1:], val)
			x.e[i] = e.mergeVal(g, nv, old)
		}
		return x
	}
	unsup("store through %T", v)
	return nil
}

// noteWrite records writes to package-level variables.
func (e *Engine) noteWrite(s *State, p PtrV) {
	if e.inInit > 0 || e.inModel > 0 || e.stateful && !e.trackWrites {
		return
	}
	o := e.obj(s, p.obj)
	if o.tag == "global" || o.tag == "baseheap" {
		if g := o.global; g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == e.p.ndPath || g.Pkg.Pkg.Path() == e.p.h.pkgPath()) {
			return
		}
		e.stateful = true
		if !e.trackWrites {
			return
		}
		e.globalWrites = append(e.globalWrites, Obligation{label: "write to package-level state", kind: "gwrite", pc: s.pc, bad: e.c.tru, pos: o.describe(), st: s})
	}
}

func (o *Obj) describe() string {
	if o.global != nil {
		return o.global.String()
	}
	return o.tag
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		e.ensureInit(g.Pkg)
		return id
	}
	e.ensureInit(g.Pkg)
	if id, ok := e.globals[g]; ok {
		return id
	}
	return e.mkGlobal(g)
}

func (e *Engine) mkGlobal(g *ssa.Global) int {
	t := g.Type().(*types.Pointer).Elem()
	e.nextObj++
	e.base.objs[e.nextObj] = &Obj{v: e.zero(t), global: g, typ: t, tag: "global"}
	e.globals[g] = e.nextObj
	return e.nextObj
}

// packages whose initialisers are never run (their variables stay unusable)
var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/poll": true,
	"internal/cpu": true, "internal/godebug": true, "time": true, "internal/reflectlite": true, "internal/testlog": true, "testing": true}

func (e *Engine) ensureInit(p *ssa.Package) {
	if p == nil || e.initDone[p] != 0 {
		return
	}
	e.initDone[p] = 1
	defer func() { e.initDone[p] = 2 }()
	for _, m := range sortedKeys(p.Members) {
		if g, ok := p.Members[m].(*ssa.Global); ok {
			if _, done := e.globals[g]; !done {
				id := e.mkGlobal(g)
				if p.Pkg.Path() == "internal/cpu" {
					continue // no special features
				}
				if noInit[p.Pkg.Path()] {
					e.base.objs[id].v = Poison{"variable of uninitialised package " + g.String()}
				}
			}
		}
	}
	if noInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	e.inInit++
	st := &State{heap: &Heap{parent: e.base, objs: map[int]*Obj{}, depth: 1}}
	om := e.merge
	e.merge = true
	outs := e.call(st, fn, nil, nil)
	e.merge = om
	e.inInit--
	if len(outs) != 1 || outs[0].pan != nil {
		e.incompl = append(e.incompl, "init of "+p.Pkg.Path()+" did not finish normally")
		e.incoPC = append(e.incoPC, nil)
		return
	}
	// fold the effects into the base heap
	var layers []*Heap
	for h := outs[0].st.heap; h != nil && h != e.base; h = h.parent {
		layers = append(layers, h)
	}
	for i := len(layers) - 1; i >= 0; i-- {
		for id, o := range layers[i].objs {
			if o.tag != "global" {
				o.tag = "baseheap"
			}
			e.base.objs[id] = o
		}
	}
}

// ---- merging of states ----

func common(a, b []*Term) (ra, rb, cm []*Term) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cm = append([]*Term(nil), a[:i]...)
	in := map[*Term]bool{}
	for _, t := range b[i:] {
		in[t] = true
	}
	inA := map[*Term]bool{}
	for _, t := range a[i:] {
		if in[t] {
			cm = append(cm, t)
			inA[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range b[i:] {
		if !inA[t] {
			rb = append(rb, t)
		}
	}
	return
}

func prefixLen(a, b []*Term) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// mergeStates merges b into a; returns the guard selecting a.
func (e *Engine) mergeStates(a, b *State) (*State, *Term) {
	ra, rb, cm := common(a.pc, b.pc)
	ca, cb := e.c.AndAll(ra), e.c.AndAll(rb)
	g := ca
	if len(rb) < len(ra) {
		g = e.c.Not(cb)
	}
	pc := cm
	or := e.c.Or(ca, cb)
	if !or.IsTrue() {
		pc = append(pc, or)
	}
	n := &State{pc: pc, model: a.model, ev: a.ev, tag: a.tag, steps: max(a.steps, b.steps)}
	for _, k := range a.known {
		for _, q := range b.known {
			if k == q {
				n.known = append(n.known, k)
				break
			}
		}
	}
	if n.model == nil {
		n.model, n.ev = b.model, b.ev
	}
	// heaps
	anc := a.heap
	x, y := a.heap, b.heap
	for x != y {
		if x == nil || y == nil {
			anc = nil
			x, y = nil, nil
			break
		}
		if x.depth >= y.depth {
			x = x.parent
		} else {
			y = y.parent
		}
	}
	anc = x
	h := &Heap{parent: anc, objs: map[int]*Obj{}}
	if anc != nil {
		h.depth = anc.depth + 1
	}
	ids := map[int]bool{}
	for l := a.heap; l != anc; l = l.parent {
		for id := range l.objs {
			ids[id] = true
		}
	}
	for l := b.heap; l != anc; l = l.parent {
		for id := range l.objs {
			ids[id] = true
		}
	}
	for id := range ids {
		oa, ob := a.heap.find(id), b.heap.find(id)
		if oa == nil {
			oa = e.base.find(id)
		}
		if ob == nil {
			ob = e.base.find(id)
		}
		switch {
		case oa == nil:
			h.objs[id] = ob
		case ob == nil:
			h.objs[id] = oa
		case oa == ob:
			h.objs[id] = oa
		default:
			h.objs[id] = &Obj{v: cloneVal(e.mergeVal(g, oa.v, ob.v)), global: oa.global, typ: oa.typ, tag: oa.tag}
		}
	}
	// objects found only through frozen ancestors may be shared with other
	// states: put the merged heap under a fresh layer so writes copy.
	n.heap = h.child()
	if a.pan != nil {
		p := *a.pan
		n.pan = &p
	}
	e.nMerges++
	return n, g
}

func (e *Engine) mergeFS(fi *funcInfo, blk int, list []*FS) []*FS {
	if len(list) <= 1 || !e.merge {
		return list
	}
	for len(list) > 1 {
		// pick the pair with the longest common path-condition prefix
		bi, bj, best := -1, -1, -1
		for i := range list {
			for j := i + 1; j < len(list); j++ {
				if !e.deferCompat(list[i], list[j]) {
					continue
				}
				if p := prefixLen(list[i].st.pc, list[j].st.pc); p > best {
					bi, bj, best = i, j, p
				}
			}
			if len(list) > 40 && bi >= 0 {
				break
			}
		}
		if bi < 0 {
			break
		}
		a, b := list[bi], list[bj]
		st, g := e.mergeStates(a.st, b.st)
		regs := make([]Value, len(a.regs))
		for _, r := range fi.live[blk] {
			regs[r] = e.mergeVal(g, a.regs[r], b.regs[r])
		}
		m := &FS{st: st, regs: regs, defers: a.defers}
		list[bi] = m
		list = append(list[:bj], list[bj+1:]...)
	}
	return list
}

func (e *Engine) deferCompat(a, b *FS) bool {
	if len(a.defers) != len(b.defers) {
		return false
	}
	for i := range a.defers {
		x, y := a.defers[i], b.defers[i]
		if x.call != y.call || len(x.args) != len(y.args) || !e.sameVal(x.fn, y.fn) {
			return false
		}
		for j := range x.args {
			if !e.sameVal(x.args[j], y.args[j]) {
				return false
			}
		}
	}
	return (a.st.pan == nil) == (b.st.pan == nil) && a.st.tag == b.st.tag
}

func (e *Engine) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) <= 1 || !e.merge {
		return outs
	}
	// normal returns with one another, panics of one kind from one place
	// with one another
	var groups [][]Outcome
next:
	for _, o := range outs {
		for i, g := range groups {
			if p, q := o.pan, g[0].pan; (p == nil) == (q == nil) && (p == nil || p.msg == q.msg && p.pos == q.pos && p.recovered == q.recovered && e.sameVal(p.val, q.val)) {
				groups[i] = append(g, o)
				continue next
			}
		}
		groups = append(groups, []Outcome{o})
	}
	outs = nil
	for _, g := range groups {
		outs = append(outs, e.mergeGroup(g)...)
	}
	return outs
}

func (e *Engine) mergeGroup(norm []Outcome) []Outcome {
	if len(norm) > 200 && norm[0].pan != nil {
		return norm // merging these takes longer than deciding them
	}
	for len(norm) > 1 {
		bi, bj, best := -1, -1, -1
		for i := range norm {
			for j := i + 1; j < len(norm); j++ {
				if norm[i].st.tag != norm[j].st.tag {
					continue
				}
				if p := prefixLen(norm[i].st.pc, norm[j].st.pc); p > best {
					bi, bj, best = i, j, p
				}
			}
			if len(norm) > 40 && best >= 0 {
				break
			}
		}
		if bi < 0 {
			break
		}
		a, b := norm[bi], norm[bj]
		st, g := e.mergeStates(a.st, b.st)
		m := Outcome{st: st, pan: a.pan}
		if a.pan == nil {
			m.ret = make(TupleV, len(a.ret))
			for i := range m.ret {
				m.ret[i] = e.mergeVal(g, a.ret[i], b.ret[i])
			}
		}
		norm[bi] = m
		norm = append(norm[:bj], norm[bj+1:]...)
	}
	return norm
}

// ---- calls ----

func (e *Engine) call(st *State, fn *ssa.Function, args []Value, bind []Value) []Outcome {
	if fn.Blocks == nil {
		unsup("function without body: %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > e.callDepthLimit {
		unsup("call depth limit in %s", fn)
	}
	e.funcsRun[fn.String()]++
	fi := e.info(fn)
	fr := &frame{fi: fi, pending: make([][]*FS, fi.nblk)}
	fs := &FS{st: st, regs: make([]Value, fi.n)}
	copy(fs.regs, args)
	if len(args) != len(fn.Params) {
		unsup("argument count for %s", fn)
	}
	copy(fs.regs[len(fn.Params):], bind)
	fr.pending[0] = []*FS{fs}
	e.runEls(fr, fi.wto)
	return e.mergeOutcomes(fr.outs)
}

func (e *Engine) runEls(fr *frame, els []*wtoEl) {
	for _, el := range els {
		if !el.comp {
			e.runBlock(fr, el.b)
			continue
		}
		iter := 0
		for {
			any := false
			for _, b := range el.all {
				if len(fr.pending[b]) > 0 {
					any = true
					break
				}
			}
			if !any {
				break
			}
			iter++
			if iter > e.loopCap && e.inInit == 0 || iter > 1<<22 {
				for _, b := range el.all {
					for _, fs := range fr.pending[b] {
						e.unwindHit(fr, fs)
					}
					fr.pending[b] = nil
				}
				break
			}
			e.runBlock(fr, el.b)
			e.runEls(fr, el.body)
		}
	}
}

func (e *Engine) unwindHit(fr *frame, fs *FS) {
	e.obls = append(e.obls, Obligation{label: "loop bound in " + fr.fi.fn.String(), pos: "loop", kind: "unwind", pc: fs.st.pc, bad: e.c.tru, st: fs.st})
}

type execItem struct {
	fs *FS
	i  int
}

func (e *Engine) runBlock(fr *frame, b *ssa.BasicBlock) {
	list := fr.pending[b.Index]
	if len(list) == 0 {
		return
	}
	fr.pending[b.Index] = nil
	list = e.mergeFS(fr.fi, b.Index, list)
	work := make([]execItem, 0, len(list))
	for _, fs := range list {
		fs.st.steps++
		work = append(work, execItem{fs, 0})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.nStates++
		work = e.runFrom(fr, b, it, work)
	}
}

func (e *Engine) runFrom(fr *frame, b *ssa.BasicBlock, it execItem, work []execItem) []execItem {
	fs := it.fs
	for i := it.i; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.nInstr++
		if e.nInstr&0xfff == 0 {
			e.checkDeadline()
		}
		cont, forks := e.step(fr, fs, b, in)
		for _, f := range forks {
			// forks resume after this instruction (or redo it when flagged)
			j := i + 1
			if f.redo {
				j = i
			}
			work = append(work, execItem{f.fs, j})
		}
		if !cont {
			return work
		}
	}
	return work
}

type forked struct {
	fs   *FS
	redo bool
}

func (e *Engine) posOf(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos() != token.NoPos {
					p = r.Pos()
					break
				}
			}
		}
	}
	ps := e.p.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d (%s)", f, ps.Line, in.Parent())
}

// step executes one instruction. It returns whether fs continues with the
// next instruction and any additional states.
func (e *Engine) step(fr *frame, fs *FS, b *ssa.BasicBlock, in ssa.Instruction) (cont bool, forks []forked) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch q := r.(type) {
		case splitReq:
			cont, forks = e.doSplit(fr, fs, q)
			return
		case concReq:
			cont, forks = e.doConc(fr, fs, in, q)
			return
		}
		if us, ok := r.(Unsupported); ok {
			if e.inInit > 0 {
				if v, ok := in.(ssa.Value); ok {
					fs.regs[fr.fi.idx[v]] = Poison{us.why}
					cont, forks = true, nil
					return
				}
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					cont, forks = true, nil
					if st, ok := in.(*ssa.Store); ok {
						func() {
							defer func() { recover() }()
							if p, ok := e.get(fr, fs, st.Addr).(PtrV); ok {
								e.storePath(fs.st, p, Poison{us.why})
							}
						}()
					}
					return
				}
			}
			e.incomplete(fs.st, fmt.Sprintf("unsupported: %s at %s", us.why, e.posOf(in)))
			cont, forks = false, nil
			return
		}
		panic(r)
	}()
	return e.step1(fr, fs, b, in)
}

func (e *Engine) incomplete(st *State, why string) {
	e.incompl = append(e.incompl, why)
	e.incoPC = append(e.incoPC, st.pc)
	if e.trace || os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "incomplete:", why)
	}
}

// edge moves fs along b -> succ, assigning phis.
func (e *Engine) edge(fr *frame, fs *FS, b *ssa.BasicBlock, si int) {
	succ := b.Succs[si]
	e.nTrans++
	// index of this edge among succ.Preds (the si-th duplicate if repeated)
	pi := -1
	dup := 0
	for k := 0; k < si; k++ {
		if b.Succs[k] == succ {
			dup++
		}
	}
	for k, p := range succ.Preds {
		if p == b {
			if dup == 0 {
				pi = k
				break
			}
			dup--
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.get(fr, fs, ph.Edges[pi]))
	}
	for i, ph := range phis {
		fs.regs[fr.fi.idx[ph]] = vals[i]
	}
	fr.pending[succ.Index] = append(fr.pending[succ.Index], fs)
}

func (e *Engine) finish(fr *frame, fs *FS, ret TupleV) {
	fr.outs = append(fr.outs, Outcome{st: fs.st, ret: ret})
}

// raise handles a Go panic in the frame.
func (e *Engine) raise(fr *frame, fs *FS, pi *PanicInfo) {
	if len(fs.defers) == 0 {
		fr.outs = append(fr.outs, Outcome{st: fs.st, pan: pi})
		return
	}
	// run deferred calls with the panic pending
	saved := fs.st.pan
	fs.st.pan = pi
	for _, o := range e.runDefers(fr, fs) {
		if o.pan != nil {
			fr.outs = append(fr.outs, o)
			continue
		}
		p := o.st.pan
		o.st.pan = saved
		if p != nil && p.recovered {
			nf := &FS{st: o.st, regs: append([]Value(nil), fs.regs...)}
			if fr.fi.fn.Recover != nil {
				rb := fr.fi.fn.Recover
				work := []execItem{{nf, 0}}
				for len(work) > 0 {
					it := work[len(work)-1]
					work = e.runFrom(fr, rb, it, work[:len(work)-1])
				}
			} else {
				res := fr.fi.fn.Signature.Results()
				ret := make(TupleV, res.Len())
				for i := range ret {
					ret[i] = e.zero(res.At(i).Type())
				}
				e.finish(fr, nf, ret)
			}
			continue
		}
		fr.outs = append(fr.outs, Outcome{st: o.st, pan: p})
	}
}

func (e *Engine) runDefers(fr *frame, fs *FS) []Outcome {
	states := []Outcome{{st: fs.st}}
	ds := fs.defers
	fs.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range states {
			if o.pan != nil {
				next = append(next, o)
				continue
			}
			next = append(next, e.invoke(o.st, d.call, d.fn, d.args, nil)...)
		}
		states = next
	}
	return states
}
