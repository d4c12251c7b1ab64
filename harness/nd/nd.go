// Package verifnd is the harness interface. The symbolic engine intercepts
// these functions; compiled natively they replay one concrete assignment.
package verifnd

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type Case struct {
	Id      string            `json:"id"`
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Vals    map[string]uint64 `json:"vals"`
	Repeat  int               `json:"repeat,omitempty"` // runs until it fails, for what the runtime leaves to chance
}

type Result struct {
	Id       string   `json:"id"`
	Status   string   `json:"status"` // ok, assume, panic, hang
	Failed   []string `json:"failed"`
	Reached  []string `json:"reached"`
	Observed []string `json:"observed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
}

var cur Case
var res Result

type assumeFail struct{}
type stopRun struct{}

func val(name string, i int, lo uint64) uint64 {
	if v, ok := cur.Vals[fmt.Sprintf("%s[%d]", name, i)]; ok {
		return v
	}
	return lo
}

// U8 is an arbitrary byte, identified by name and index.
func U8(name string, i int) uint8 { return uint8(val(name, i, 0)) }

// U32 is an arbitrary 32-bit number.
func U32(name string, i int) uint32 { return uint32(val(name, i, 0)) }

// Bool is an arbitrary boolean.
func Bool(name string, i int) bool { return val(name, i, 0) == 1 }

// Int is an arbitrary number in [lo, hi], 0 <= lo.
func Int(name string, i, lo, hi int) int {
	v := int(val(name, i, uint64(lo)))
	if v < lo || v > hi {
		panic(assumeFail{})
	}
	return v
}

// Split is Int explored by a case split.
func Split(name string, i, lo, hi int) int { return Int(name, i, lo, hi) }

// Fix makes a value concrete in the symbolic run.
func Fix(v int) int { return v }

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

func Assert(c bool, label string) {
	if !c {
		res.Failed = append(res.Failed, label)
	}
}

func Fail(label string) { res.Failed = append(res.Failed, label) }

func Reach(label string) { res.Reached = append(res.Reached, label) }

func Observe(label string, v int) {
	res.Observed = append(res.Observed, fmt.Sprintf("%s=%d", label, v))
}

func Param(name string) int {
	v, ok := cur.Params[name]
	if !ok {
		panic("no parameter " + name)
	}
	return v
}

func Native() bool { return true }

// Stop ends the run here.
func Stop() { panic(stopRun{}) }

// Steps is the number of blocks executed so far; natively it is not known.
func Steps() int { return 0 }

// Disproportionate reports whether large takes much more time than its input,
// which is 16 times that of small, would justify.
func Disproportionate(small, large func()) bool {
	best := func(f func(), n int) time.Duration {
		b := time.Hour
		for i := 0; i < n; i++ {
			t := time.Now()
			f()
			b = min(b, time.Since(t))
		}
		return b
	}
	a, b := best(small, 9), best(large, 3)
	return b > 20*time.Millisecond && b > 80*a
}

// SameStart reports whether two non-empty slices start at the same address.
func SameStart(a, b []byte) bool {
	return len(a) > 0 && len(b) > 0 && &a[0] == &b[0]
}

// OddClass stands for the class of a structurally well-formed sequence that
// encodes no scalar value; only the symbolic run uses it.
func OddClass(raw uint32) uint8 { return 0 }

func runOne(c Case, fs map[string]func()) {
	cur = c
	res = Result{Id: c.Id, Status: "ok"}
	f := fs[c.Harness]
	func() {
		defer func() {
			r := recover()
			switch r.(type) {
			case nil:
			case assumeFail:
				res.Status = "assume"
			case stopRun:
			default:
				res.Status = "panic"
				res.Panic = fmt.Sprint(r)
				res.Stack = string(debug.Stack())
			}
		}()
		if f == nil {
			res.Status = "missing"
			return
		}
		f()
	}()
	fsClean()
	b, _ := json.Marshal(res)
	fmt.Printf("\nVERIFRESULT %s\n", b)
}

// RunCases runs the cases in the file named by VERIF_CASES.
func RunCases(fs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		return
	}
	var cs []Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	for _, c := range cs {
		fmt.Printf("\nVERIFSTART %s\n", strings.ReplaceAll(c.Id, "\n", " "))
		run := func() bool {
			cur, res = c, Result{Id: c.Id, Status: "ok"}
			runOne(c, fs)
			return res.Status == "ok" && len(res.Failed) == 0
		}
		for n := 0; run() && n < c.Repeat; n++ {
		}
	}
}
