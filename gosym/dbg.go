package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
)

// diffModel lists terms on which the solver and the evaluator disagree (debugging aid).
func (e *Engine) diffModel(d *Term, m map[string]uint64) {
	em := NewEmitter(e.c)
	em.Def(d)
	q := em.out.String()
	vars := map[string]*Term{}
	terms := map[int]*Term{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || terms[t.id] != nil {
			return
		}
		terms[t.id] = t
		if t.op == OpVar {
			vars[t.name] = t
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
		if x, ok := em.expand[t]; ok {
			rec(x)
		}
	}
	rec(d)
	for n, t := range vars {
		if v, ok := m[n]; ok {
			q += fmt.Sprintf("(assert (= |%s| %s))\n", n, constStr(v, t.w))
		}
	}
	q += "(assert " + em.ref(d) + ")\n(check-sat)\n"
	var ids []string
	for id, t := range terms {
		if t.op != OpConst && t.op != OpVar && t.op != OpSelect && t.op != OpUF && em.seen[t] {
			ids = append(ids, "t"+strconv.Itoa(id))
		}
	}
	q += "(get-value (" + strings.Join(ids, " ") + "))\n"
	cmd := exec.Command(solverPath("z3-new"), "-in")
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	fmt.Fprintln(os.Stderr, "diffModel", strings.SplitN(string(out), "\n", 2)[0], m)
	ev := e.newEval(m)
	n := 0
	for _, x := range regexp.MustCompile(`\(t(\d+) ([#a-z0-9]+)\)`).FindAllStringSubmatch(string(out), -1) {
		id, _ := strconv.Atoi(x[1])
		var v uint64
		switch {
		case x[2] == "true":
			v = 1
		case strings.HasPrefix(x[2], "#x"):
			v, _ = strconv.ParseUint(x[2][2:], 16, 64)
		case strings.HasPrefix(x[2], "#b"):
			v, _ = strconv.ParseUint(x[2][2:], 2, 64)
		}
		t := terms[id]
		if w := ev.Eval(t); w != v {
			ok := true
			for _, ch := range []*Term{t.a, t.b, t.c} {
				_ = ch
			}
			if ok && n < 400 {
				n++
				if n < 20 {
					fmt.Fprintf(os.Stderr, "  t%d solver %d eval %d: %s\n", id, v, w, t)
				}
			}
		}
	}
}

var debugging = os.Getenv("GOSYM_DEBUG") != ""

// forkProf counts forks by place (debugging aid, one job at a time).
var forkProf map[string]int

func init() {
	if os.Getenv("GOSYM_FORKS") != "" {
		forkProf = map[string]int{}
		if f, err := os.Create(os.Getenv("GOSYM_FORKS")); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
}

func printForks() {
	if forkProf != nil {
		pprof.StopCPUProfile()
	}
	var l []string
	for k, n := range forkProf {
		l = append(l, fmt.Sprintf("%7d %s", n, k))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, x := range l[:min(len(l), 400)] {
		fmt.Fprintln(os.Stderr, x)
	}
}
