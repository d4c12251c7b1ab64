package main

// One check: stages of jobs, native confirmation, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Check struct {
	ID        string
	Technique string
	Note      string
	Bounds    []string // bounds and what lies outside them
	Assume    []string
	Plan      func(r *Run)
}

type Viol struct {
	What   string
	Replay string
}

type Run struct {
	c                  *Check
	tier               string
	seed               int
	t0                 time.Time
	deadline           time.Time
	mu                 sync.Mutex
	stateful           bool // some job writes or shares package-level state
	stages             []stage
	viol               *Viol
	stopped            bool
	validN             int // native executions that agree with the encoding
	mismatch           []string
	reduced            []string
	samples            []any
	unconf             []string
	known              []string
	extra              map[string]any
	isLemma            bool
	lemmaDone, lemmaOK bool
	lemmaNotes         []string
	confirm            func(r *Run, c *Cex) // override of the confirmation of a counterexample
}

type stage struct {
	name string
	res  []*JobResult
}

func (r *Run) quick() bool { return r.tier != "thorough" }

func (r *Run) logf(f string, a ...any) {
	fmt.Printf("[%6.1fs] "+f+"\n", append([]any{time.Since(r.t0).Seconds()}, a...)...)
}

// reduce notes that a bound was not reached.
func (r *Run) reduce(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.mu.Lock()
	r.reduced = append(r.reduced, s)
	r.mu.Unlock()
	r.logf("reduced bound: %s", s)
}

// do runs the jobs and reports whether all of them came out clean.
func (r *Run) do(name string, jobs []*Job) bool {
	if len(jobs) == 0 || r.stopped {
		return !r.stopped
	}
	hs := map[*Harness]bool{}
	for _, j := range jobs {
		hs[j.H] = true
	}
	progs := map[*Harness]*Program{}
	clean := true
	var wg sync.WaitGroup
	var mu sync.Mutex
	var hl []*Harness
	for h := range hs {
		hl = append(hl, h)
		h.prepare()
	}
	for _, h := range hl {
		wg.Add(1)
		go func(h *Harness) {
			defer wg.Done()
			p, err := h.load()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.reduce("stage %s: %v", name, err)
				clean = false
				return
			}
			progs[h] = p
		}(h)
		go h.buildNative(false)
	}
	wg.Wait()
	st := stage{name: name}
	ch := make(chan *Job)
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				p := progs[j.H]
				if p == nil {
					continue
				}
				left := time.Until(r.deadline)
				r.mu.Lock()
				stop := r.stopped
				r.mu.Unlock()
				if stop {
					continue
				}
				if left < time.Second {
					mu.Lock()
					clean = false
					mu.Unlock()
					r.reduce("%s not run: time budget used up", j.id())
					continue
				}
				if j.Timeout == 0 {
					j.Timeout = 150 * time.Second
				}
				if j.Timeout > left {
					j.Timeout = left
				}
				if j.Solve == 0 {
					j.Solve = 100 * time.Second
				}
				if j.Solve > left {
					j.Solve = left
				}
				res := j.run(p)
				ok := r.settle(j, res)
				if res.MapRange && !j.MapRev && ok {
					// whatever the order of a map's entries
					k := *j
					k.MapRev = true
					res2 := k.run(p)
					ok = r.settle(&k, res2)
					mu.Lock()
					st.res = append(st.res, res2)
					mu.Unlock()
				}
				mu.Lock()
				st.res = append(st.res, res)
				r.stateful = r.stateful || res.Stateful
				if !ok {
					clean = false
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	r.stages = append(r.stages, st)
	return clean
}

// lemma runs jobs whose failure is no violation of the property.
func (r *Run) lemma(name string, jobs []*Job) bool {
	q := &Run{c: r.c, tier: r.tier, seed: r.seed, t0: r.t0, deadline: r.deadline, extra: map[string]any{}, isLemma: true}
	ok := q.do(name, jobs)
	r.stages = append(r.stages, q.stages...)
	r.validN += q.validN
	r.samples = append(r.samples, q.samples...)
	r.mismatch = append(r.mismatch, q.mismatch...)
	r.lemmaNotes = append(r.lemmaNotes, q.reduced...)
	r.stateful = r.stateful || q.stateful
	return ok && q.viol == nil
}

func workers() int {
	if n, _ := strconv.Atoi(os.Getenv("GOSYM_WORKERS")); n > 0 {
		return n
	}
	return 8
}

// settle replays counterexamples and witnesses natively.
func (r *Run) settle(j *Job, res *JobResult) bool {
	ok := true
	line := fmt.Sprintf("%s: %d assertions, %d discharged, %d queries, %.1fs", j.id(), res.Asserts, res.Trivial+res.Discharged, res.Queries+res.FeasQ, res.Wall.Seconds())
	if len(res.Cexs) > 0 || len(res.Incompl) > 0 || len(res.Unreached) > 0 || os.Getenv("GOSYM_DEBUG") != "" {
		r.logf("%s", line)
	}
	for _, s := range res.Incompl {
		ok = false
		r.reduce("%s: %s", j.id(), s)
	}
	for _, l := range res.Unreached {
		ok = false
		r.reduce("%s: no input reaches %q", j.id(), l)
	}
	var cases []Case
	for _, c := range res.Cexs {
		ok = false
		cases = append(cases, c.Case)
	}
	for i := range res.Witnesses {
		cases = append(cases, res.Witnesses[i].Case)
	}
	if len(cases) == 0 {
		return ok
	}
	if res.MapRange {
		for i := range cases {
			if i < len(res.Cexs) {
				cases[i].Repeat = 40
			}
		}
	}
	to := 20 * time.Second
	nr, err := j.H.runNative(cases, to)
	if err != nil {
		r.reduce("%s: native run: %v", j.id(), tail(err.Error(), 400))
	}
	for i := range res.Cexs {
		c := &res.Cexs[i]
		c.Native = nr[c.Case.Id]
		if c.Kind == "gwrite" {
			nr, err := j.H.runNativeBin([]Case{c.Case}, 60*time.Second, true)
			n := nr[c.Case.Id]
			if err == nil && n != nil && strings.Contains(n.Panic, "DATA RACE") {
				c.Native = n
				r.violation(j, c, "data race between two concurrent calls: write to "+c.Pos)
			} else {
				r.reduce("%s: the scanner writes %s; two concurrent calls under the race detector show no race (%v)", j.id(), c.Pos, err)
			}
			continue
		}
		if v := confirmed(c); v != "" {
			r.violation(j, c, v)
		} else {
			s := fmt.Sprintf("%s %v: the solver's model did not reproduce natively (%s)", j.id(), c.Labels, nstatus(c.Native))
			r.mu.Lock()
			r.unconf = append(r.unconf, s)
			r.mu.Unlock()
			r.reduce("%s", s)
		}
	}
	for _, w := range res.Witnesses {
		n := nr[w.Case.Id]
		if n == nil {
			continue
		}
		if w.Label == "" && (n.Status == "assume" || j.Abstract) {
			continue
		}
		if n.Status == "ok" && len(n.Failed) == 0 && (w.Label == "" || contains(n.Reached, w.Label)) && sameStrings(n.Observed, w.Observed) {
			r.mu.Lock()
			r.validN++
			if len(r.samples) < 6 {
				r.samples = append(r.samples, map[string]any{"job": j.id(), "reaches": w.Label, "inputs": w.Case.Vals, "observed_symbolically_and_natively": n.Observed})
			}
			r.mu.Unlock()
			continue
		}
		if len(n.Failed) > 0 || n.Status == "panic" || n.Status == "crash" || n.Status == "hang" {
			// a real failure of the real code on a concrete input
			c := &Cex{Job: j, Case: w.Case, Labels: n.Failed, Kind: "witness", Native: n}
			if v := confirmed(c); v != "" {
				r.violation(j, c, v)
				ok = false
				continue
			}
		}
		ok = false
		s := fmt.Sprintf("%s: encoding and native execution differ on witness %q: symbolic %v, native %s %v", j.id(), w.Label, w.Observed, n.Status, n.Observed)
		r.mu.Lock()
		r.mismatch = append(r.mismatch, s)
		r.mu.Unlock()
		r.reduce("%s", s)
	}
	return ok
}

func nstatus(n *NativeResult) string {
	if n == nil {
		return "no result"
	}
	return strings.TrimSpace(n.Status + " " + tail(n.Panic, 200))
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// confirmed describes the failure of the real code, "" if there is none.
func confirmed(c *Cex) string {
	n := c.Native
	if n == nil {
		return ""
	}
	switch n.Status {
	case "ok":
		if len(n.Failed) > 0 {
			return "assertion failed: " + strings.Join(uniq(n.Failed), "; ")
		}
	case "panic", "crash":
		if len(n.Failed) > 0 {
			return "assertion failed: " + strings.Join(uniq(n.Failed), "; ")
		}
		if panicInHarness(n) {
			return ""
		}
		return "panic: " + firstLine(n.Panic)
	case "hang":
		return "the call does not return"
	}
	return ""
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func uniq(l []string) []string {
	var r []string
	for _, x := range l {
		if !contains(r, x) {
			r = append(r, x)
		}
	}
	return r
}

// panicInHarness: the first frame below the panic belongs to the harness.
func panicInHarness(n *NativeResult) bool {
	ls := strings.Split(n.Stack, "\n")
	i := 0
	for k, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			i = k + 2
		}
	}
	for ; i < len(ls); i++ {
		l := ls[i]
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.Contains(l, "/verifnd.") || i+1 < len(ls) && strings.Contains(ls[i+1], "zz_verif_")
	}
	return false
}

func (r *Run) evDir() string {
	d := filepath.Join(verifDir, "evidence")
	os.MkdirAll(d, 0o755)
	return d
}

type Replay struct {
	Property string         `json:"property"`
	What     string         `json:"what"`
	Harness  string         `json:"harness"`
	Case     Case           `json:"case"`
	Labels   []string       `json:"labels"`
	Native   *NativeResult  `json:"native"`
	Note     string         `json:"note,omitempty"`
	Extra    map[string]any `json:"extra,omitempty"`
	HowTo    string         `json:"how_to_replay"`
}

func (r *Run) violation(j *Job, c *Cex, what string) {
	if k := knownFinding(r.c.ID, c, what); k != "" {
		r.mu.Lock()
		r.known = append(r.known, k)
		r.mu.Unlock()
		return
	}
	r.report(&Replay{Harness: j.H.Name, Case: c.Case, Labels: c.Labels, Native: c.Native, What: what, Note: j.Note})
}

// report records the first violation.
func (r *Run) report(rp *Replay) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.viol != nil {
		return
	}
	if r.isLemma {
		r.viol = &Viol{What: rp.What}
		r.stopped = true
		fmt.Printf("lemma fails: %s %s %v\n", rp.What, rp.Case.Id, rp.Case.Vals)
		return
	}
	rp.Property = r.c.ID
	f := filepath.Join(r.evDir(), r.c.ID+".replay.json")
	if rp.HowTo == "" {
		rp.HowTo = verifDir + "/run.sh replay " + f
	}
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
	r.viol = &Viol{What: rp.What, Replay: f}
	r.stopped = true
	fmt.Printf("%s: %s\n  case %s %v\n", r.c.ID, rp.What, rp.Case.Id, rp.Case.Vals)
}

// knownFinding looks a confirmed violation up in the committed list.
func knownFinding(id string, c *Cex, what string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return ""
	}
	vals, _ := json.Marshal(c.Case.Vals)
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=ID case=<job>|<inputs as JSON> <text>
		s, ok := strings.CutPrefix(l, "known: property="+id+" case=")
		if !ok {
			continue
		}
		key := c.Job.id() + "|" + string(vals)
		if rest, ok := strings.CutPrefix(s, key); ok {
			return strings.TrimSpace(rest)
		}
	}
	return ""
}

func runCheck(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Println("no check", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{c: c, tier: tier, seed: seed, t0: time.Now(), extra: map[string]any{}}
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3600 * time.Second
	}
	if n, _ := strconv.Atoi(os.Getenv("GOSYM_BUDGET")); n > 0 {
		budget = time.Duration(n) * time.Second
	}
	r.deadline = r.t0.Add(budget)
	c.Plan(r)
	r.evidence()
	for _, k := range uniq(r.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if r.viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, r.viol.Replay)
		return 1
	}
	fmt.Printf("%s held on everything explored (%.1fs)\n", id, time.Since(r.t0).Seconds())
	return 0
}

func (r *Run) evidence() {
	var states, trans, asserts, trivial, disch, queries, feas, sat, unk, instrs, jobs, bits int
	var solver time.Duration
	funcs, stubs, solvers := map[string]int{}, map[string]int{}, map[string]int{}
	var jl []map[string]any
	for _, st := range r.stages {
		for _, x := range st.res {
			jobs++
			states += x.States
			trans += x.Trans
			asserts += x.Asserts
			trivial += x.Trivial
			disch += x.Discharged
			queries += x.Queries
			feas += x.FeasQ
			sat += x.SatN
			unk += x.UnknownN
			instrs += x.Instrs
			solver += x.SolverTime
			bits = max(bits, x.Bits)
			for k, v := range x.Funcs {
				if !strings.Contains(k, "/verifnd.") && !strings.Contains(k, "zverif") {
					funcs[k] += v
				}
			}
			for k, v := range x.Stubs {
				stubs[k] += v
			}
			for k, v := range x.Solvers {
				solvers[k] += v
			}
			jl = append(jl, map[string]any{"stage": st.name, "job": x.Job.id(), "note": x.Job.Note, "symbolic_input_bits": x.Bits, "assertions": x.Asserts, "discharged": x.Trivial + x.Discharged,
				"queries": x.Queries + x.FeasQ, "solver_s": round(x.SolverTime.Seconds()), "wall_s": round(x.Wall.Seconds()), "incomplete": x.Incompl})
		}
	}
	sort.Slice(jl, func(a, b int) bool { return jl[a]["job"].(string) < jl[b]["job"].(string) })
	if len(jl) > 400 {
		r.extra["jobs_listed"] = 400
		jl = jl[:400]
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": r.validN, "samples": r.samples,
		"jobs": jobs, "functions_encoded": sortedKeys(funcs), "ssa_instructions_encoded": instrs, "assertions": asserts,
		"assertions_decided_by_simplification": trivial, "assertions_discharged_by_solver": disch, "obligation_queries": queries, "feasibility_queries": feas,
		"solver_s": round(solver.Seconds()), "solver_answers": solvers, "queries_without_answer": unk, "satisfiable_obligation_groups": sat,
		"largest_symbolic_input_bits": bits, "bounds": r.c.Bounds, "reduced_bounds": r.reduced, "encoding_mismatches": r.mismatch,
		"unconfirmed_counterexamples": r.unconf, "stubs": sortedKeys(stubs), "lemma_notes": r.lemmaNotes, "job_list": jl,
		"exhaustive": false,
	}
	if cov["samples"] == nil || len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	nv := 0
	if r.viol != nil {
		nv = 1
		cov["violation"] = map[string]any{"what": r.viol.What, "replay": r.viol.Replay}
	}
	ev := map[string]any{"property": r.c.ID, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, commonAssume...), r.c.Assume...), "wall_s": round(time.Since(r.t0).Seconds()), "violations": nv}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(r.evDir(), r.c.ID+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

var commonAssume = []string{
	"the go/ssa intermediate representation (golang.org/x/tools v0.52.0) and the symbolic executor in /verif/gosym model the compiled code (validated on every run by replaying solver models natively)",
	"the SMT solvers z3 and cvc5 answer unsat only for unsatisfiable queries",
	"linux/amd64, Go 1.27 unless the job names another release",
}

func cmdReplay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	h := harnesses[rp.Harness]
	if h == nil {
		fmt.Println(rp.What)
		fmt.Println(rp.Note)
		js, _ := json.MarshalIndent(rp.Extra, "", " ")
		fmt.Println(string(js))
		return 0
	}
	nr, err := h.runNative([]Case{rp.Case}, 30*time.Second)
	if err != nil {
		fmt.Println(err)
	}
	n := nr[rp.Case.Id]
	js, _ := json.MarshalIndent(n, "", " ")
	fmt.Println(string(js))
	if n != nil && (len(n.Failed) > 0 || n.Status != "ok") {
		fmt.Println("reproduced:", rp.What)
		return 1
	}
	return 0
}

// runTool runs a command, returning its combined output.
func runTool(dir string, env []string, to time.Duration, name string, args ...string) (string, error) {
	cmd := exec.Command("timeout", append([]string{strconv.Itoa(int(to.Seconds())), name}, args...)...)
	cmd.Dir = dir
	if env != nil {
		cmd.Env = env
	}
	b, err := cmd.CombinedOutput()
	return string(b), err
}
