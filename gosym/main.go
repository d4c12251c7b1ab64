package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID | job HARNESS FN k=v...")
		os.Exit(2)
	}
	code := 0
	// tools started by libraries find this release of Go first
	os.Setenv("PATH", filepath.Dir(newestGo())+":"+os.Getenv("PATH"))
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "job":
		code = cmdJob(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		code = runCheck(os.Args[2], tier)
	case "version":
		fmt.Println("gosym ready")
	case "manifest":
		if err := writeManifest(); err != nil {
			fmt.Println(err)
			code = 2
		}
	case "replay":
		code = cmdReplay(os.Args[2])
	}
	if scratch != "" && os.Getenv("GOSYM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func cmdJob(a []string) int {
	h := harnesses[a[0]]
	if h == nil {
		fmt.Println("no harness", a[0])
		return 2
	}
	j := &Job{H: h, Fn: a[1], Params: map[string]int{}, Timeout: 600 * time.Second}
	for _, kv := range a[2:] {
		k, v, _ := strings.Cut(kv, "=")
		switch k {
		case "-abs":
			j.Abstract = true
		case "-eager":
			j.Eager = true
		case "-nomerge":
			j.NoMerge = true
		case "-reach":
			j.Reach = append(j.Reach, v)
		case "-group":
			j.Group, _ = strconv.Atoi(v)
		case "-redir":
			f, t, _ := strings.Cut(v, ":")
			if j.Redirect == nil {
				j.Redirect = map[string]string{}
			}
			j.Redirect[f] = t
		default:
			n, _ := strconv.Atoi(v)
			j.Params[k] = n
		}
	}
	p, err := h.load()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := j.run(p)
	printResult(r)
	var cases []Case
	for _, c := range r.Cexs {
		cases = append(cases, c.Case)
	}
	for _, w := range r.Witnesses {
		cases = append(cases, w.Case)
	}
	if len(cases) > 0 {
		nr, err := h.runNative(cases, 60*time.Second)
		if err != nil {
			fmt.Println("native:", err)
		}
		for _, c := range cases {
			fmt.Printf("native %s vals=%v\n  -> %+v\n", c.Id, c.Vals, nr[c.Id])
		}
	}
	for _, w := range r.Witnesses {
		fmt.Println("symbolic obs", w.Label, w.Observed)
	}
	return 0
}

func printResult(r *JobResult) {
	printForks()
	fmt.Printf("%s: asserts %d (trivial %d) discharged %d sat %d unknown %d | queries %d feas %d | states %d trans %d merges %d forks %d instrs %d | solver %.1fs wall %.1fs\n",
		r.Job.id(), r.Asserts, r.Trivial, r.Discharged, r.SatN, r.UnknownN, r.Queries, r.FeasQ, r.States, r.Trans, r.Merges, r.Forks, r.Instrs, r.SolverTime.Seconds(), r.Wall.Seconds())
	for _, s := range r.Incompl {
		fmt.Println("   incomplete:", s)
	}
	for _, s := range r.Unreached {
		fmt.Println("   unreached:", s)
	}
	for _, c := range r.Cexs {
		fmt.Println("   cex:", c.Kind, c.Labels, c.Pos)
	}
}
