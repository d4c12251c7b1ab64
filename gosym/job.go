package main

// Running one harness symbolically, discharging its obligations and replaying
// solver models against the natively compiled code.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	H        *Harness
	Fn       string
	Params   map[string]int
	Abstract bool              // class lookups of the reference are uninterpreted
	Redirect map[string]string // function -> stub function in the harness package
	Reach    []string          // labels that must be reachable
	Timeout  time.Duration     // symbolic execution
	Solve    time.Duration     // per obligation group
	NoMerge  bool
	Eager    bool // ask for feasibility at every branch
	Track    bool // record writes to package-level state
	LoopCap  int
	Group    int               // obligations per query
	Note     string            // what the parameters mean
	Concrete map[string]uint64 // run with these values instead of symbolic ones
	MapRev   bool              // maps are ranged over backwards
	NoUnwind bool              // loop-bound hits are expected and only reduce the bound
}

func (j *Job) id() string {
	var ps []string
	for _, k := range sortedKeys(j.Params) {
		ps = append(ps, fmt.Sprintf("%s=%d", k, j.Params[k]))
	}
	s := j.Fn + "(" + strings.Join(ps, ",") + ")"
	if j.Abstract {
		s += "~"
	}
	if j.MapRev {
		s += "/maps backwards"
	}
	return s
}

type Case struct {
	Id      string            `json:"id"`
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Vals    map[string]uint64 `json:"vals"`
	Repeat  int               `json:"repeat,omitempty"`
}

type NativeResult struct {
	Id       string   `json:"id"`
	Status   string   `json:"status"`
	Failed   []string `json:"failed"`
	Reached  []string `json:"reached"`
	Observed []string `json:"observed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
}

type Cex struct {
	Job    *Job
	Case   Case
	Labels []string
	Kind   string
	Pos    string
	Native *NativeResult
}

type Witness struct {
	Label    string
	Case     Case
	Observed []string
}

type JobResult struct {
	Job        *Job
	Asserts    int // assertions met during execution
	Trivial    int // of these, discharged by simplification
	Queries    int // obligation queries
	Discharged int
	SatN       int
	UnknownN   int
	FeasQ      int
	States     int
	Trans      int
	Merges     int
	Forks      int
	Instrs     int
	Cexs       []Cex
	Incompl    []string
	Witnesses  []Witness
	Unreached  []string
	SolverTime time.Duration
	Wall       time.Duration
	Funcs      map[string]int
	Stubs      map[string]int
	Inputs     int
	Bits       int
	Observed   []string // concrete mode
	MapRange   bool     // a map is ranged over
	Stateful   bool     // package-level state is written or shared
	Err        string
	Lines      int
	GWrites    []string
	Solvers    map[string]int
	Spurious   int
}

func NewEngine(p *Program, j *Job) *Engine {
	e := &Engine{c: NewCtx(), p: p, globals: map[*ssa.Global]int{}, initDone: map[*ssa.Package]int{}, funcs: map[*ssa.Function]*funcInfo{},
		merge: !j.NoMerge, lazy: !j.Eager && !j.NoMerge, params: j.Params, inputIdx: map[string]*Term{}, loopCap: 1 << 20, funcsRun: map[string]int{}, qcache: map[string]qres{},
		callDepthLimit: 400, redirName: map[string]*ssa.Function{}, stubs: map[string]int{}, sizes: p.sizes, abstractRef: j.Abstract, trackWrites: j.Track, mapRev: j.MapRev}
	if j.LoopCap > 0 {
		e.loopCap = j.LoopCap
	}
	e.base = &Heap{objs: map[int]*Obj{}}
	for i := uint64(0); i < 18; i++ {
		e.classes = append(e.classes, i)
	}
	return e
}

func (e *Engine) resolveRedirects(j *Job) {
	add := func(from, to string) {
		if f := e.p.fn(to); f != nil {
			e.redirName[from] = f
		}
	}
	for _, fn := range stdStubs {
		add(strings.Replace(fn[0], "VERIFND", e.p.ndPath, 1), e.p.ndPath+"."+fn[1])
	}
	hp := j.H.pkgPath()
	mainMod := modulePath(repoDir)
	for from, to := range j.Redirect {
		from = strings.ReplaceAll(from, "MAINMOD", mainMod)
		from = strings.ReplaceAll(from, "UNVERSIONED", path.Dir(mainMod))
		add(from, hp+"."+to)
	}
}

func (j *Job) run(p *Program) (res *JobResult) {
	t0 := time.Now()
	res = &JobResult{Job: j, Solvers: map[string]int{}}
	e := NewEngine(p, j)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case deadlineErr:
				res.Incompl = append(res.Incompl, "time limit of the symbolic execution")
			case Unsupported:
				res.Incompl = append(res.Incompl, "unsupported: "+x.why)
			default:
				res.Err = fmt.Sprint(r)
				res.Incompl = append(res.Incompl, "engine error: "+fmt.Sprint(r))
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine error", r, string(debug.Stack()))
				}
			}
		}
		res.FeasQ = e.nFeasQ
		res.States, res.Trans, res.Merges, res.Forks, res.Instrs = e.nStates, e.nTrans, e.nMerges, e.nForks, e.nInstr
		res.Asserts, res.Trivial = e.nAssert, e.nTrivial
		res.Funcs, res.Stubs = e.funcsRun, e.stubs
		res.Stateful, res.MapRange = e.stateful, e.mapRange
		res.Inputs = len(e.inputs)
		for _, v := range e.inputs {
			w := int(v.W)
			if w == 64 {
				w = 0
				for x := v.T.hi - v.T.lo; x > 0; x >>= 1 {
					w++
				}
			}
			res.Bits += w
		}
		if e.solver != nil {
			res.SolverTime += e.solver.Time
			e.solver.Close()
		}
		res.Wall = time.Since(t0)
	}()
	if j.Timeout == 0 {
		j.Timeout = 120 * time.Second
	}
	if j.Solve == 0 {
		j.Solve = 60 * time.Second
	}
	e.deadline = time.Now().Add(j.Timeout)
	e.resolveRedirects(j)
	fn := p.fn(j.H.pkgPath() + "." + j.Fn)
	if fn == nil {
		res.Incompl = append(res.Incompl, "no harness "+j.Fn)
		return
	}
	if j.Concrete != nil {
		e.fixed = j.Concrete
	} else {
		e.solver = NewSolver(e.c, 10000)
	}
	e.ensureInit(fn.Pkg)
	st := &State{heap: (&Heap{parent: e.base, objs: map[int]*Obj{}, depth: 1})}
	outs := e.callFn(st, fn, nil, nil, nil)
	for _, o := range outs {
		if o.pan != nil {
			e.nAssert++
			e.obls = append(e.obls, Obligation{label: "panic: " + o.pan.msg, kind: "panic", pc: o.st.pc, bad: e.c.tru, pos: o.pan.pos, st: o.st})
		}
	}
	if forkProf != nil {
		for _, o := range e.obls {
			forkProf["OBL "+o.kind+" "+o.label+" "+o.pos]++
		}
	}
	seen := map[string]bool{}
	for i, s := range e.incompl {
		if !seen[s] {
			if j.Concrete == nil && i < len(e.incoPC) && len(e.incoPC[i]) > 0 {
				if r, _ := e.check(e.incoPC[i], j.Solve, res); r == IsUnsat {
					continue
				}
			}
			seen[s] = true
			res.Incompl = append(res.Incompl, s)
		}
	}
	if j.Concrete != nil {
		ev := e.newEval(nil)
		for _, o := range e.obs {
			res.Observed = append(res.Observed, fmt.Sprintf("%s=%d", o.label, int64(ev.Eval(o.vals[0].(*Term)))))
		}
		for _, o := range e.obls {
			if ev.Eval(o.bad) == 1 {
				res.Cexs = append(res.Cexs, Cex{Job: j, Labels: []string{o.label}, Kind: o.kind})
			}
		}
		sort.Strings(res.Observed)
		return
	}
	for _, w := range e.globalWrites {
		res.GWrites = append(res.GWrites, w.pos)
		e.obls = append(e.obls, w)
	}
	e.discharge(j, res)
	e.reachability(j, res)
	return
}

func (o *Obligation) term(c *Ctx) *Term { return c.And(c.AndAll(o.pc), o.bad) }

func (e *Engine) check(conj []*Term, to time.Duration, res *JobResult) (Sat, map[string]uint64) {
	for _, t := range conj {
		if t.IsFalse() {
			return IsUnsat, nil
		}
	}
	// models already known
	for i := len(e.pool) - 1; i >= 0; i-- {
		if e.evalPC(e.pool[i], conj) {
			return IsSat, e.pool[i].m
		}
	}
	res.Queries++
	// quick attempt with the incremental solver
	r, m := e.solver.CheckWithin(conj, 400)
	if r != Unknown {
		res.Solvers["z3-new(incremental)"]++
		return r, m
	}
	solverSem <- struct{}{}
	o := OneShot(e.c, conj, to, []string{"z3-new", "z3", "cvc5"}, false)
	<-solverSem
	res.SolverTime += o.Time
	if o.Res != Unknown {
		res.Solvers[o.Solver]++
	}
	return o.Res, o.Model
}

var solverSem = make(chan struct{}, 3)

func (e *Engine) discharge(j *Job, res *JobResult) {
	group := j.Group
	if group == 0 {
		group = 16
	}
	done := map[string]bool{}
	var obls []Obligation
	for _, o := range e.obls {
		if o.kind == "unwind" {
			if done[o.label] {
				continue
			}
			if r, m := e.check(append(append([]*Term(nil), o.pc...), o.bad), j.Solve, res); r != IsUnsat {
				done[o.label] = true
				res.Incompl = append(res.Incompl, o.label+" reached")
				if r == IsSat {
					res.Cexs = append(res.Cexs, Cex{Job: j, Case: e.mkCase(j, m, fmt.Sprintf("%s#cex%d", j.id(), len(res.Cexs))), Labels: []string{"the loop ends"}, Kind: "unwind", Pos: o.label})
				}
			}
			continue
		}
		obls = append(obls, o)
	}
	var solve func(os []Obligation)
	solve = func(os []Obligation) {
		for len(os) > 0 {
			d := e.c.fls
			var rest []Obligation
			for _, o := range os {
				if done[o.label+o.pos] {
					continue // one counterexample per assertion
				}
				rest = append(rest, o)
				d = e.c.Or(d, o.term(e.c))
			}
			os = rest
			if len(os) == 0 {
				return
			}
			r, m := e.check([]*Term{d}, j.Solve, res)
			switch r {
			case IsUnsat:
				res.Discharged += len(os)
				return
			case Unknown:
				if len(os) > 1 {
					h := len(os) / 2
					solve(os[:h])
					solve(os[h:])
					return
				}
				res.UnknownN++
				res.Incompl = append(res.Incompl, "solver gave no answer for "+os[0].label+" at "+os[0].pos)
				return
			}
			if j.Abstract {
				// look for a model that agrees with the reference tables
				r2, m2 := e.precise(j, d, res)
				if r2 == IsUnsat {
					// no real input: over-approximation only
					res.Spurious++
					res.Discharged += len(os)
					return
				}
				if r2 == Unknown {
					res.UnknownN++
					res.Incompl = append(res.Incompl, "solver gave no answer for the precise version of "+os[0].label)
					return
				}
				m = m2
			}
			ev := e.newEval(m)
			hit := false
			var keep []Obligation
			var labels []string
			var kind, pos string
			for _, o := range os {
				if ev.Eval(o.term(e.c)) == 1 {
					hit = true
					done[o.label+o.pos] = true
					labels = append(labels, o.label)
					if kind == "" {
						kind, pos = o.kind, o.pos
					}
				} else {
					keep = append(keep, o)
				}
			}
			if !hit {
				if debugging {
					e.diffModel(d, m)
				}
				res.UnknownN++
				res.Incompl = append(res.Incompl, "model does not falsify any assertion ("+os[0].label+")")
				return
			}
			res.SatN++
			res.Cexs = append(res.Cexs, Cex{Job: j, Case: e.mkCase(j, m, fmt.Sprintf("%s#cex%d", j.id(), len(res.Cexs))), Labels: labels, Kind: kind, Pos: pos})
			os = keep
			if len(res.Cexs) >= 6 {
				return
			}
		}
	}
	for i := 0; i < len(obls); i += group {
		e.deadline = time.Time{}
		solve(obls[i:min(i+group, len(obls))])
	}
}

// precise adds the definition of every uninterpreted class.
func (e *Engine) precise(j *Job, d *Term, res *JobResult) (Sat, map[string]uint64) {
	conj := []*Term{d}
	fn := e.p.fn(e.p.ndPath + ".RefClass")
	n := len(e.c.ufApps)
	saved := e.redirName
	e.redirName = map[string]*ssa.Function{}
	e.resolveRedirects(&Job{H: j.H})
	defer func() { e.redirName = saved }()
	for i := 0; i < n; i++ {
		u := e.c.ufApps[i]
		fn := fn
		if u.name == "odd" {
			fn = e.p.fn(j.H.pkgPath() + ".OddReal")
		}
		if fn == nil {
			continue
		}
		st := &State{heap: &Heap{parent: e.base, objs: map[int]*Obj{}, depth: 1}}
		guard := e.c.tru
		if u.name == "cls" {
			guard = e.c.Ult(u.a, e.c.Const(0x110000, u.a.w))
			e.assume(st, guard)
		}
		outs := e.call(st, fn, []Value{u.a}, nil)
		for _, o := range outs {
			if o.pan == nil {
				conj = append(conj, e.c.Implies(e.c.And(guard, e.c.AndAll(o.st.pc)), e.c.Eq(u, o.ret[0].(*Term))))
			}
		}
	}
	for _, pm := range e.pool {
		if e.evalPC(pm, conj) {
			return IsSat, pm.m
		}
	}
	res.Queries++
	solverSem <- struct{}{}
	o := OneShot(e.c, conj, j.Solve, []string{"z3-new", "z3", "cvc5"}, false)
	<-solverSem
	res.SolverTime += o.Time
	return o.Res, o.Model
}

func (e *Engine) mkCase(j *Job, m map[string]uint64, id string) Case {
	c := Case{Id: id, Harness: j.Fn, Params: j.Params, Vals: map[string]uint64{}}
	for _, v := range e.inputs {
		x, ok := m[v.Name]
		if !ok {
			x = v.T.lo
		}
		c.Vals[v.Name] = x
	}
	return c
}

func (e *Engine) reachability(j *Job, res *JobResult) {
	labels := map[string][]ReachPt{}
	for _, r := range e.reaches {
		labels[r.label] = append(labels[r.label], r)
	}
	want := append([]string(nil), j.Reach...)
	for _, l := range want {
		pts := labels[l]
		found := false
		for _, r := range pts {
			var s Sat
			var m map[string]uint64
			if j.Abstract {
				s, m = e.precise(j, e.c.AndAll(r.pc), res)
			} else {
				s, m = e.check(append([]*Term(nil), r.pc...), j.Solve, res)
				if len(r.pc) == 0 {
					s, m = IsSat, map[string]uint64{}
				}
			}
			if s != IsSat {
				continue
			}
			found = true
			ev := e.newEval(m)
			w := Witness{Label: l, Case: e.mkCase(j, m, j.id()+"#reach-"+l)}
			for _, o := range e.obs {
				ok := true
				for _, t := range o.pc {
					if ev.Eval(t) != 1 {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				v, isT := o.vals[0].(*Term)
				if !isT {
					continue
				}
				w.Observed = append(w.Observed, fmt.Sprintf("%s=%d", o.label, int64(ev.Eval(v))))
			}
			sort.Strings(w.Observed)
			res.Witnesses = append(res.Witnesses, w)
			break
		}
		if !found {
			res.Unreached = append(res.Unreached, l)
		}
	}
}

// ---- native replay ----

var nativeSeq int64

func (h *Harness) runNative(cases []Case, timeout time.Duration) (map[string]*NativeResult, error) {
	return h.runNativeBin(cases, timeout, false)
}

func (h *Harness) runNativeBin(cases []Case, timeout time.Duration, race bool) (map[string]*NativeResult, error) {
	bin, err := h.buildNative(race)
	if err != nil {
		return nil, err
	}
	out := map[string]*NativeResult{}
	todo := cases
	tmp := filepath.Join(h.tmp, fmt.Sprintf("native%d", atomic.AddInt64(&nativeSeq, 1)))
	dir := filepath.Join(tmp, "run")
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(tmp)
	lim := "ulimit -v 12000000; "
	if race {
		lim = ""
	}
	for len(todo) > 0 {
		b, _ := json.Marshal(todo)
		f := filepath.Join(tmp, "cases.json")
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return out, err
		}
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		cmd := exec.CommandContext(ctx, "/bin/sh", "-c", lim+`exec "$0" "$@"`, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "10m")
		cmd.Dir = dir
		cmd.Env = append(goEnv(h.gobin()), "VERIF_CASES="+f)
		o, err := cmd.CombinedOutput()
		timedOut := ctx.Err() != nil
		cancel()
		started := ""
		for _, l := range strings.Split(string(o), "\n") {
			if s, ok := strings.CutPrefix(l, "VERIFSTART "); ok {
				started = s
			}
			if s, ok := strings.CutPrefix(l, "VERIFRESULT "); ok {
				r := &NativeResult{}
				if json.Unmarshal([]byte(s), r) == nil {
					out[r.Id] = r
				}
			}
		}
		if i := strings.Index(string(o), "WARNING: DATA RACE"); race && i >= 0 && len(todo) == 1 {
			// reported while the run went on
			id := todo[0].Id
			out[id] = &NativeResult{Id: id, Status: "crash", Panic: head(string(o)[i:], 2500)}
			break
		}
		if err == nil {
			break
		}
		// the case that was running crashed or hung
		if started == "" || out[started] != nil {
			return out, fmt.Errorf("native run: %v\n%s", err, tail(string(o), 2000))
		}
		st := "crash"
		if timedOut {
			st = "hang"
		}
		out[started] = &NativeResult{Id: started, Status: st, Panic: tail(string(o), 1500)}
		var rest []Case
		for _, c := range todo {
			if out[c.Id] == nil {
				rest = append(rest, c)
			}
		}
		todo = rest
	}
	return out, nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// runJobs runs jobs in parallel.
func runJobs(jobs []*Job, workers int, progress func(*JobResult)) []*JobResult {
	res := make([]*JobResult, len(jobs))
	progs := map[*Harness]*Program{}
	errs := map[*Harness]error{}
	for _, j := range jobs {
		if progs[j.H] == nil && errs[j.H] == nil {
			p, err := j.H.load()
			progs[j.H], errs[j.H] = p, err
		}
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				j := jobs[i]
				if err := errs[j.H]; err != nil {
					res[i] = &JobResult{Job: j, Incompl: []string{"could not load: " + err.Error()}}
				} else {
					res[i] = j.run(progs[j.H])
				}
				mu.Lock()
				if progress != nil {
					progress(res[i])
				}
				mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return res
}
