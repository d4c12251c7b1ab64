package main

import (
	"fmt"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

var harnesses = map[string]*Harness{}

func reg(h *Harness) *Harness {
	harnesses[h.Name] = h
	return h
}

var (
	hProps = reg(&Harness{Name: "props", Mod: ".", Rel: "textseg/zverif/props"})
	hE2E   = reg(&Harness{Name: "e2e", Mod: ".", Rel: "textseg/zverif/e2e"})
	hMach  = reg(&Harness{Name: "mach", Mod: ".", Rel: "textseg/zverif/mach"})
	hName  = reg(&Harness{Name: "naming", Mod: ".", Rel: "textseg/zverif/naming"})
	hUCD   = reg(&Harness{Name: "ucd", Mod: ".", Rel: "textseg/zverif/ucd"})
	hGen   = reg(&Harness{Name: "gen", Mod: ".", Rel: "textseg/zverif/gen"})
	hRegen = reg(&Harness{Name: "regen", Mod: ".", Rel: "textseg/zverif/regen", Setup: setupRegen})
	hAuto  = map[int]*Harness{25: autoHarness(25), 26: autoHarness(26), 27: autoHarness(27)}
	hE2ES  = reg(&Harness{Name: "e2es", Dirs: []string{"e2e"}, Mod: ".", Rel: "textseg/zverif/e2e"})
)

var checks = map[string]*Check{}

func addCheck(c *Check) { checks[c.ID] = c }

// ---- texts of k units ----

type shape struct {
	k, pat, cyc  int
	fill, fn, at int // fn times a filler after the first `at` units
}

func sh(k, pat, cyc int) shape { return shape{k: k, pat: pat, cyc: cyc} }

// filled: u units before and the digits of pat after a run of n fillers.
func filled(pat, at, fill, n int) shape {
	k := 0
	for p := pat; p > 0; p /= 10 {
		k++
	}
	return shape{k: k, pat: pat, fill: fill, fn: n, at: at}
}

// The fillers of harness/e2e by number.
const (
	fMark, fBad, fLetter = 0, 12, 10
	nFillers             = 15
)

// quadratic lists harness functions that are run with short runs only.
var quadratic = map[string]bool{"VerifAll": true, "VerifHistory": true}

// runs are texts with a long run of one character or pair of characters:
// between arbitrary characters, at the start and at the end.
func runs(valid, quick bool) []shape {
	var ss []shape
	each := func(f func(fill int)) {
		for i := 0; i < nFillers; i++ {
			if i != fBad || !valid {
				f(i)
			}
		}
	}
	each(func(i int) {
		ss = append(ss, filled(33, 1, i, 40), filled(34, 1, i, 300), filled(343, 2, i, 20), filled(33, 2, i, 45), filled(13, 0, i, 35))
		if !valid {
			ss = append(ss, filled(35, 1, i, 41), filled(355, 1, i, 20))
		}
	})
	ss = append(ss, filled(33, 1, 9, 1100), filled(33, 1, fMark, 2100), filled(33, 2, fLetter, 4200), filled(13, 1, 4, 2100))
	ss = append(ss, tails()...)
	if !valid {
		ss = append(ss, filled(354, 3, fLetter, 600), filled(345, 3, fMark, 300), filled(35, 1, fMark, 1100), filled(355, 1, 9, 2100), filled(35, 1, fMark, 4200))
	}
	if quick {
		return ss
	}
	each(func(i int) {
		for _, p := range []int{11, 12, 14, 22, 23, 24, 31, 32, 41, 42, 43, 44} {
			ss = append(ss, filled(p, 1, i, 40))
		}
		for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025} {
			ss = append(ss, filled(33, 1, i, n), filled(443, 2, i, n))
		}
		ss = append(ss, filled(33, 1, i, 5000), filled(3333, 2, i, 30))
	})
	return append(ss, filled(33, 1, 9, 17000), filled(33, 1, fMark, 33000), filled(33, 2, fLetter, 66000))
}

// tails are short clusters in front of a long text.
func tails() []shape {
	var ss []shape
	for i, p := range []int{344, 434, 333, 144, 4443, 2443} {
		k := 3
		if p > 1000 {
			k = 4
		}
		ss = append(ss, filled(p, k, fLetter, 600+100*i))
	}
	return append(ss, filled(344, 3, fLetter, 70000))
}

// fewRuns is a selection.
func fewRuns(quick bool) []shape {
	if !quick {
		return runs(false, true)
	}
	return []shape{filled(3, 1, fMark, 40), filled(3, 1, 7, 30), filled(3, 0, fLetter, 30), filled(3, 1, fBad, 40), filled(34, 1, 4, 300), filled(4, 1, 3, 20), filled(33, 1, 9, 1100), filled(13, 2, fLetter, 45)}
}

// runsReal are some of them for the real decoder.
func runsReal(valid bool) []shape {
	ss := []shape{filled(3, 1, fMark, 40), filled(3, 1, fMark, 270), filled(3, 1, 7, 30), filled(3, 1, 3, 40), filled(13, 2, fLetter, 300), filled(3, 0, 6, 40), filled(4, 1, 5, 40)}
	if !valid {
		ss = append(ss, filled(3, 1, fBad, 40))
	}
	return ss
}

const redirLookup = "MAINMOD/textseg/internal/charprops.LookupFirstChar"

// lemmas justify the replacement of the decoder by its description.
func (r *Run) lemmas() bool {
	if r.lemmaDone {
		return r.lemmaOK
	}
	r.lemmaDone = true
	r.lemmaOK = r.lemmas1()
	return r.lemmaOK
}

func (r *Run) lemmas1() bool {
	var js []*Job
	js = append(js, &Job{H: hE2ES, Fn: "VerifStub", Params: map[string]int{"max": 5}, Reach: []string{"stub"}, Note: "decoder result by structure, any buffer of up to 5 bytes"},
		&Job{H: hE2ES, Fn: "VerifStubTail", Params: map[string]int{"max": 5}, Reach: []string{"stub"}, Note: "bytes after the first character have no influence, buffers of up to 5 bytes"})
	for l := 1; l <= 4; l++ {
		js = append(js, &Job{H: hE2ES, Fn: "VerifStubClass", Params: map[string]int{"len": l}, Reach: []string{"stub"}, Note: fmt.Sprintf("class of every sequence of %d bytes", l)})
	}
	for _, n := range []int{6, 7, 8, 9, 12, 16, 33, 65, 255, 256, 257, 258, 1025, 4097} {
		js = append(js, &Job{H: hE2ES, Fn: "VerifStubLen", Params: map[string]int{"len": n}, Reach: []string{"stub"}, Note: "the first character in a buffer of len bytes is decoded as if alone"})
	}
	for _, j := range js {
		j.LoopCap = 400 + 2*j.Params["len"]
	}
	// a failing lemma is no violation of this property
	if !r.lemma("decoder description", js) {
		return false
	}
	if !r.stateful {
		return true
	}
	js = nil
	for l := 1; l <= 4; l++ {
		for m := 1; m <= 4; m++ {
			js = append(js, &Job{H: hE2ES, Fn: "VerifStubAfter", Params: map[string]int{"len": l, "before": m}, LoopCap: 400, Reach: []string{"stub"}, Note: "class of every sequence of len bytes after a sequence of `before` bytes"})
		}
	}
	return r.lemma("decoder description, after other characters", js)
}

// text makes a job over the texts of a shape.
func text(fn string, s shape, abstract bool, extra map[string]int) *Job {
	p := map[string]int{"k": s.k, "pat": s.pat, "cyc": s.cyc, "fill": s.fill, "fn": s.fn, "at": s.at}
	for k, v := range extra {
		p[k] = v
	}
	j := &Job{H: hE2E, Fn: fn, Params: p, LoopCap: 2000 + 10*s.fn}
	if abstract {
		j.H = hE2ES
		j.Abstract = true
		j.Redirect = map[string]string{redirLookup: "StubLookup"}
	}
	return j
}

// patterns lists shapes of k units whose first nfix kinds are fixed, one per
// combination; the engine splits over the rest.
func patterns(k, nfix, maxKind int) []shape {
	if nfix == 0 {
		return []shape{sh(k, 0, 0)}
	}
	var out []shape
	var rec func(p, n int)
	rec = func(p, n int) {
		if n == 0 {
			out = append(out, sh(k, p, 0))
			return
		}
		for d := 1; d <= maxKind; d++ {
			rec(p*10+d, n-1)
		}
	}
	rec(0, nfix)
	return out
}

// textPlan: the deeper abstract runs if the decoder matches its description,
// otherwise precise runs over the real tables.
func textPlan(fn, reach string, valid bool, extra map[string]int, quick, thorough, fallback []shape) func(r *Run) {
	return func(r *Run) {
		mk := func(ss []shape, abstract bool) []*Job {
			var js []*Job
			for _, s := range ss {
				if s.fn > 45 && quadratic[fn] {
					continue
				}
				j := text(fn, s, abstract, extra)
				j.Reach = []string{reach}
				j.Note = unitNote
				js = append(js, j)
			}
			return js
		}
		lemmaOK := r.lemmas()
		if r.stopped {
			return
		}
		r.extra["decoder_replaced_by_its_description"] = lemmaOK
		// the real tables, small shapes: always
		rr := runsReal(valid)
		if fn == "VerifPure" || fn == "VerifHistory" {
			rr = []shape{filled(3, 1, fMark, 40), filled(13, 2, fLetter, 30)}
		}
		r.do("real decoder and tables", mk(cat(fallback, rr), false))
		if lemmaOK {
			rs := runs(valid, r.quick())
			if fn == "VerifPure" || fn == "VerifHistory" {
				rs = fewRuns(r.quick())
			}
			ss := cat(rs, quick)
			if !r.quick() {
				ss = cat(ss, thorough)
			}
			r.do("decoder described", mk(ss, true))
			return
		}
		r.reduce("the decoder does not match its description: only the small shapes on the real tables were decided")
	}
}

func job(h *Harness, fn, reach string, note string, kv ...any) *Job {
	p := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		p[kv[i].(string)] = kv[i+1].(int)
	}
	j := &Job{H: h, Fn: fn, Params: p, Note: note}
	if reach != "" {
		j.Reach = strings.Split(reach, ",")
	}
	return j
}

var (
	longShapes = []shape{sh(8, 3, 1), sh(10, 3143, 1), sh(12, 1, 1)}
	badShapes  = []shape{sh(9, 35, 1), sh(10, 53415, 1), sh(10, 34315, 1)}
	deepValid  = []shape{sh(24, 31343, 1), sh(16, 4, 1), sh(20, 34, 1), sh(30, 1, 1), sh(40, 3, 1)}
	deepAny    = []shape{sh(24, 31343, 1), sh(16, 4, 1), sh(20, 34, 1), sh(20, 3415, 1), sh(30, 1, 1)}
	smallAny   = []shape{sh(1, 0, 0), sh(2, 0, 0), sh(3, 333, 0), sh(3, 453, 0), sh(3, 515, 0), sh(3, 343, 0)}
	smallValid = []shape{sh(1, 0, 0), sh(2, 0, 0), sh(3, 333, 0), sh(3, 343, 0), sh(3, 131, 0), sh(3, 434, 0)}
	unitNote   = "k units; digits of pat: kinds of the first units (1-4 = length of a complete sequence, 5 = malformed byte), over and over if cyc=1, otherwise every kind for the rest; fn times filler number `fill` after `at` of the units"
)

var textBounds = []string{
	"every byte content of texts of up to 3 or 4 units (quick) or 5 units (thorough) in every arrangement of sequence lengths and malformed bytes; longer texts (up to 12 units quick, 24-40 thorough) in the arrangements listed as cyc=1",
	"besides texts of one or two arbitrary units before, after or around a run of 7 to several hundred copies of one of 15 fixed fillers (marks, joiners, flags, prepends, conjuncts, emoji, Hangul, CR LF, malformed bytes, letters)",
	"a unit is a structurally complete UTF-8 sequence or one malformed byte; every byte string is a sequence of units",
	"outside: texts with more units, except as far as the property's own argument over single calls extends them",
}

// longSplits: clusters of a size that buffers are seldom made for.
func longSplits(r *Run, soon int) {
	var js []*Job
	add := func(fill, n, kind int) {
		j := job(hE2E, "VerifSplitLong", "split", "n times filler number `fill` between two arbitrary sequences, of kind and of 3 bytes, cut at five places", "fill", fill, "n", n, "kind", kind, "soon", soon)
		j.LoopCap = 1000 + 10*n
		if r.quick() {
			j.Timeout = 100 * time.Second
		}
		js = append(js, j)
	}
	add(fMark, 33000, 3)
	add(9, 17000, 4)
	add(7, 700, 2)
	add(3, 600, 3)
	add(4, 9000, 1)
	add(6, 1500, 3)
	if !r.quick() {
		for f := 0; f < nFillers; f++ {
			for _, n := range []int{500, 1400, 5500, 20000} {
				add(f, n, 1+(f+n/100)%4)
			}
		}
	}
	r.do("long clusters", js)
}

func init() {
	addCheck(&Check{ID: "C01", Technique: techE2E, Bounds: textBounds, Plan: func(r *Run) {
		textPlan("VerifFirst", "first", true, nil, cat(patterns(3, 1, 4), patterns(4, 2, 4), longShapes), cat(patterns(5, 3, 4), deepValid), smallValid)(r)
		textPlan("VerifAll", "all", true, nil, cat(patterns(3, 1, 4), longShapes), cat(patterns(4, 2, 4), patterns(5, 3, 4), deepValid), smallValid)(r)
	}})
	addCheck(&Check{ID: "C04", Technique: techE2E, Bounds: textBounds, Plan: textPlan("VerifLossless", "lossless", false, nil,
		cat(patterns(3, 1, 5), patterns(4, 2, 5), longShapes, badShapes), cat(patterns(5, 2, 5), deepAny), smallAny)})
	addCheck(&Check{ID: "C05", Technique: techE2E, Bounds: textBounds, Plan: func(r *Run) {
		textPlan("VerifSplit", "split", false, nil,
			cat(patterns(3, 1, 5), longShapes, badShapes), cat(patterns(4, 2, 5), patterns(5, 3, 5), deepAny), smallAny)(r)
		longSplits(r, 0)
	}})
	addCheck(&Check{ID: "C06", Technique: techE2E, Bounds: textBounds, Plan: textPlan("VerifMalformed", "scan", false, nil,
		cat(patterns(3, 1, 5), patterns(4, 2, 5), longShapes, badShapes), cat(patterns(5, 3, 5), deepAny), smallAny)})
	addCheck(&Check{ID: "C07", Technique: techE2E, Bounds: textBounds, Plan: func(r *Run) {
		textPlan("VerifTotal", "total", false, nil, cat(patterns(3, 1, 5), patterns(4, 2, 5), longShapes, badShapes), cat(patterns(5, 3, 5), deepAny), smallAny)(r)
		var js []*Job
		max := 6
		if !r.quick() {
			max = 12
		}
		for n := 0; n <= max; n++ {
			for _, x := range []int{0, 4} {
				j := job(hE2E, "VerifTotalBytes", "total", "every buffer of n bytes, however it decodes, with x arbitrary bytes behind it, real decoder and tables", "n", n, "x", x)
				j.LoopCap = 2000
				js = append(js, j)
			}
		}
		r.do("raw bytes", js)
		js = nil
		for f := 0; f < nFillers; f++ {
			for k := 1; k <= 4; k++ {
				if r.quick() && k != 3 && !(f == fMark && k == 4) {
					continue
				}
				j := job(hE2E, "VerifSteps", "steps", "n and 2n times filler number `fill` between two arbitrary sequences of kind bytes: three times as many steps at most (and 3000)", "fill", f, "n", 250, "kind", k)
				j.LoopCap = 1 << 20
				js = append(js, j)
			}
		}
		r.do("number of steps", js)
	}})
	addCheck(&Check{ID: "C08", Technique: techE2E + "; writes to package-level state are queries of their own, confirmed under the race detector", Bounds: textBounds, Plan: func(r *Run) {
		var js []*Job
		for _, s := range cat([]shape{sh(1, 0, 0), sh(2, 0, 0), sh(3, 343, 0), sh(3, 353, 0), sh(3, 131, 0)}, runsReal(false), []shape{filled(3, 1, fMark, 2100), filled(3, 1, 7, 300), filled(3, 1, 3, 300)}) {
			j := text("VerifRace", s, false, nil)
			j.Track = true
			j.Reach = []string{"race"}
			j.Note = "writes to package-level state, real decoder; " + unitNote
			js = append(js, j)
		}
		r.do("package-level state", js)
		lem := r.lemmas()
		if r.stopped {
			return
		}
		r.extra["package_level_state_written"] = r.stateful
		if r.stateful {
			// otherwise there is nothing through which calls could meet
			histories(r, lem)
		}
		js = nil
		for f := 0; f < nFillers; f++ {
			for i, n := range []int{20, 300, 1100} {
				if r.quick() && i == 2 && f != 9 && f != fMark {
					continue
				}
				j := job(hE2E, "VerifHistoryRun", "history", "scanning n times filler number `fill` and leading parts of it before two arbitrary characters of `kind` bytes and letters at the same place", "n", n, "fill", f, "kind", 2+(f+i)%3, "eof", (f+i/2)%2)
				j.LoopCap = 2000 + 40*n
				if lem {
					j.H, j.Abstract, j.Redirect = hE2ES, true, map[string]string{redirLookup: "StubLookup"}
				}
				js = append(js, j)
			}
		}
		r.do("history of long texts", js)
		js = nil
		for _, s := range []shape{filled(33, 1, fMark, 20), filled(33, 1, fMark, 600), filled(33, 1, fMark, 2100), filled(33, 1, 9, 300), filled(33, 2, fLetter, 2100), sh(3, 333, 0)} {
			for _, rooms := range [][2]int{{4096, 1 << 16}, {8192, 1 << 19}} {
				j := text("VerifCap", s, lem, map[string]int{"room": rooms[0], "room2": rooms[1]})
				j.Reach = []string{"cap"}
				j.Note = "the same bytes in buffers with much more room; " + unitNote
				js = append(js, j)
			}
		}
		r.do("capacity", js)
		textPlan("VerifPure", "pure", false, map[string]int{"x": 2, "o": 2}, cat(patterns(2, 0, 5), []shape{sh(3, 333, 0), sh(3, 343, 0), sh(3, 345, 0), sh(3, 131, 0), sh(6, 3143, 1)}), cat(patterns(3, 1, 5), longShapes), []shape{sh(1, 0, 0), sh(2, 33, 0), sh(2, 35, 0)})(r)
		textPlan("VerifHistory", "history", false, nil, cat(patterns(2, 0, 5), []shape{sh(3, 333, 0), sh(3, 343, 0), sh(3, 345, 0), sh(4, 1414, 0), sh(6, 3143, 1)}), cat(patterns(3, 1, 5), longShapes), []shape{sh(1, 0, 0), sh(2, 33, 0), sh(2, 35, 0), sh(3, 333, 0)})(r)
	}})
	addCheck(&Check{ID: "C09", Technique: techE2E, Bounds: textBounds, Plan: func(r *Run) {
		textPlan("VerifPrompt", "prompt", false, nil,
			cat(patterns(3, 1, 5), patterns(4, 2, 5), longShapes, badShapes), cat(patterns(5, 3, 5), deepAny), smallAny)(r)
		longSplits(r, 1)
	}})
	addCheck(&Check{ID: "C10", Technique: "symbolic execution of the Go SSA of bufio.Scanner together with the scanner over a reader whose pieces are symbolic; SMT (z3, cvc5) decides that the tokens are those of the whole text; besides bufio.Scanner with every split function that has the property the scanner is shown to have; counterexamples replayed natively with bufio.Scanner", Bounds: []string{
		"bufio.Scanner with the scanner itself: texts of up to 2 units (quick) or 3 (thorough) and some longer ones, in pieces of up to 1 to 5 bytes, up to 2 empty reads, the end with or after the last piece, buffers of 1 byte up to the default",
		"the property of the split function that this rests on: the same texts as in C05, every leading part; clusters of up to 68 kB, cut at five places",
		"bufio.Scanner with every split function that has that property: texts of up to 8 bytes, cut anywhere, in pieces of any sizes up to 4 bytes",
		"provided that the scanner's buffer has room for each cluster and four more bytes (bufio.Scanner reports longer tokens as errors) and the reader makes progress (bufio.Scanner gives up after 100 empty reads in a row)",
	}, Plan: func(r *Run) {
		bufioPlan(r)
		longSplits(r, 0)
	}})
	addCheck(&Check{ID: "C12", Technique: techE2E, Bounds: textBounds, Plan: func(r *Run) {
		textPlan("VerifAlone", "alone", false, nil, cat(patterns(3, 1, 5), patterns(4, 2, 5), longShapes, badShapes), cat(patterns(5, 3, 5), deepAny), smallAny)(r)
		textPlan("VerifAll", "all", true, nil, cat(patterns(3, 1, 4), longShapes), cat(patterns(4, 2, 4), deepValid), smallValid[:4])(r)
		var js []*Job
		for _, s := range cat(tails(), []shape{filled(33, 1, fMark, 300), filled(34, 1, 6, 300), filled(43, 1, 7, 300), filled(34, 1, 3, 300)}) {
			j := text("VerifFirst", s, r.lemmaOK, nil)
			j.Reach = []string{"first"}
			j.Note = "the first boundary is one of the whole text; " + unitNote
			js = append(js, j)
		}
		r.do("first boundaries of long texts", js)
		r.do("specification", []*Job{job(hMach, "VerifSpecRestart", "restart", "a boundary of the rules forgets the past: any state, any next character"), job(hMach, "VerifSpecReach", "reach", "the states considered are closed under every character")})
	}})

	addCheck(&Check{ID: "C02", Technique: techE2E, Bounds: []string{
		"detector: every history of characters of any length, by induction over the states of the rules (base, step and closure are solver queries over all states and all next classes); besides every sequence of 6 (quick) or 9 (thorough) characters directly, going on across boundaries and beginning anew at them",
		"scanner: clusters of one arbitrary character, up to 300 fillers of each kind and 33000 combining marks (quick) or 70000 fillers of each kind (thorough), two arbitrary characters; longer clusters are outside",
		"specification: the incremental form agrees with the literal rules for all sequences of up to 6 (quick) or 8 (thorough) characters",
	}, Plan: func(r *Run) {
		n := 6
		if !r.quick() {
			n = 9
		}
		r.lemma("specification", []*Job{
			job(hMach, "VerifSpec", "spec", "incremental rules agree with the literal rules on k characters", "k", n),
			job(hMach, "VerifSpecReach", "reach", "the states considered are closed under every character"),
			job(hMach, "VerifSpecRestart", "restart", "a boundary of the rules forgets the past")})
		ind := r.lemma("state of the detector", []*Job{
			job(hMach, "VerifStateStep", "state", "one more character from any state: the detector's state is determined by that of the rules"),
			job(hMach, "VerifStateBegin", "begin", "first character")})
		r.extra["histories_of_any_length"] = ind
		if !ind {
			r.reduce("the induction over histories does not go through; only bounded sequences were decided")
		}
		r.do("detector", []*Job{
			job(hMach, "VerifStep", "step", "next boundary after a shortest history of any state"),
			job(hMach, "VerifSeq", "seq", "k characters, going on across boundaries", "k", n, "fresh", 0),
			job(hMach, "VerifSeq", "seq", "k characters, beginning anew at boundaries", "k", n, "fresh", 1)})
		lem := r.lemmas()
		var js []*Job
		add := func(n, kind, fill int) {
			j := job(hE2E, "VerifLong", "long", "one character of `kind` bytes, n fillers, two characters of 3 bytes", "n", n, "kind", kind, "fill", fill)
			if lem {
				j.H, j.Abstract, j.Redirect = hE2ES, true, map[string]string{redirLookup: "StubLookup"}
			}
			js = append(js, j)
		}
		for f := 0; f < 10; f++ {
			for _, k := range []int{1, 3, 4} {
				add(70, k, f)
			}
			add(300, 3, f)
		}
		add(1, 3, 0)
		if r.quick() {
			add(33000, 3, 0)
		} else {
			for f := 0; f < 10; f++ {
				add(70000, 3, f)
			}
		}
		r.do("long clusters", js)
	}})

	addCheck(&Check{ID: "C03", Technique: techE2E, Bounds: []string{
		"every one of the 1,112,064 scalar values, in its UTF-8 form, alone and with up to 2 (quick) or 4 (thorough) arbitrary bytes after it",
	}, Assume: []string{"the reference classification in harness/nd/ref.go, generated by tools/mkref.py from the Unicode 17.0 data files at the pinned commit"}, Plan: func(r *Run) {
		var js []*Job
		mores := []int{0, 2}
		if !r.quick() {
			mores = []int{0, 1, 2, 3, 4}
		}
		for l := 4; l >= 1; l-- {
			for _, m := range mores {
				js = append(js, job(hProps, "VerifClass", "class", "all scalar values of len bytes, followed by more arbitrary bytes", "len", l, "more", m))
			}
		}
		r.do("classes", js)
	}})
	addCheck(&Check{ID: "C11", Technique: techE2E, Bounds: []string{
		"every buffer of up to 5 (quick) or 8 (thorough) bytes, of any content, and of lengths around powers of two up to 65,538 bytes; other lengths are outside",
	}, Plan: func(r *Run) {
		max := 5
		if !r.quick() {
			max = 8
		}
		var js []*Job
		for _, n := range []int{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200, 255, 256, 257, 258, 259, 511, 513, 1025, 4097, 32768, 65535, 65536, 65537, 65538} {
			js = append(js, job(hProps, "VerifDecodeLen", "decode", "every buffer of n bytes", "n", n))
		}
		r.do("longer buffers", js)
		r.do("decoding", []*Job{
			job(hProps, "VerifDecode", "complete,incomplete,malformed", "every buffer of up to max bytes", "max", max),
			job(hProps, "VerifTail", "tail", "every pair of buffers of up to max bytes that agree on the first character", "max", max)})
	}})
}

// histories: the scanner has package-level state. Calls that come before or
// in between.
func histories(r *Run, lem bool) {
	var js []*Job
	add := func(fn string, s shape, abstract bool, extra map[string]int) {
		j := text(fn, s, abstract, extra)
		j.Reach = []string{"history"}
		j.Note = "calls on two arbitrary texts, one before or within the other; " + unitNote
		js = append(js, j)
	}
	for _, p := range []int{1, 2, 3, 4, 34, 44, 45, 345} {
		for _, q := range []int{14, 13, 12, 33, 44, 43, 34} {
			if p > 9 && q > 14 && r.quick() {
				continue
			}
			k := len(strconv.Itoa(p))
			add("VerifAfter", sh(k, p, 0), false, map[string]int{"second": q})
		}
	}
	for _, p := range []int{1, 3, 4, 13, 14, 33, 44, 45} {
		add("VerifInterfere", sh(len(strconv.Itoa(p)), p, 0), false, nil)
	}
	if lem {
		for _, p := range []int{11, 33, 34, 43, 333, 345, 453, 444} {
			for _, q := range []int{33, 44, 333} {
				add("VerifAfter", sh(len(strconv.Itoa(p)), p, 0), true, map[string]int{"second": q})
			}
			add("VerifInterfere", sh(len(strconv.Itoa(p)), p, 0), true, nil)
		}
	}
	r.do("histories and interference", js)
}

func bufioPlan(r *Run) {
	lemmaOK := r.lemmas()
	if r.stopped {
		return
	}
	r.extra["decoder_replaced_by_its_description"] = lemmaOK
	var js []*Job
	real := func(abstract bool, s shape, step, empty, buf, max, fin int) {
		j := text("VerifBufio", s, abstract, map[string]int{"step": step, "empty": empty, "buf": buf, "max": max, "fin": fin})
		j.Reach = []string{"bufio"}
		j.Note = "texts of k units in pieces of at most step bytes (0: at once), up to `empty` empty reads; buf: first size of the scanner's buffer, 0 for the default; max: its greatest size; fin=1: the end may come with the last piece; " + unitNote
		js = append(js, j)
	}
	// with the real decoder and tables
	for _, p := range []int{1, 3, 5} {
		real(false, sh(1, p, 0), 4, 2, 0, 65536, 1)
	}
	for _, p := range []int{11, 13, 33, 35, 53} {
		real(false, sh(2, p, 0), 1, 0, 1, 12, 1)
	}
	if lemmaOK {
		real(true, sh(1, 0, 0), 4, 2, 0, 65536, 1)
		for _, s := range patterns(2, 2, 5) {
			real(true, s, 2, 0, 1, 12, 1)
		}
		real(true, sh(2, 11, 0), 2, 2, 0, 65536, 1)
		real(true, sh(2, 33, 0), 5, 0, 2, 10, 1)
		real(true, sh(2, 35, 0), 4, 1, 2, 10, 0)
		real(true, sh(3, 111, 0), 3, 1, 1, 8, 1)
		real(true, sh(3, 333, 0), 0, 0, 2, 13, 1)
		if !r.quick() {
			real(true, filled(33, 0, fLetter, 60), 0, 0, 64, 4096, 0)
			real(true, filled(43, 0, fLetter, 59), 0, 0, 64, 4096, 0)
			real(true, filled(33, 0, fLetter, 4092), 0, 0, 0, 65536, 0)
			for _, s := range patterns(2, 2, 5) {
				real(true, s, 4, 1, 0, 65536, 1)
			}
			for _, p := range []int{333, 131, 343, 353, 535, 434, 113, 311, 555} {
				real(true, sh(3, p, 0), 1, 0, 1, 16, 1)
				real(true, sh(3, p, 0), 0, 1, 1, 16, 0)
			}
		}
	}
	r.do("bufio.Scanner with the scanner", js)
	textPlan("VerifPieces", "pieces", false, nil, cat(patterns(3, 1, 5), longShapes, badShapes), cat(patterns(4, 2, 5), deepAny), smallAny)(r)
	js = nil
	stub := func(n, step, empty, fin, buf, max, look int) {
		j := job(hE2E, "VerifBufioStub", "bufio", "texts of n bytes cut anywhere, with every split function that returns the right token or none; look: bytes after a token by which it is returned, 0 for any number", "n", n, "step", step, "empty", empty, "fin", fin, "buf", buf, "max", max, "look", look)
		j.Redirect = map[string]string{"MAINMOD/textseg.ScanGraphemeClusters": "StubSplit"}
		js = append(js, j)
	}
	stub(4, 4, 1, 1, 0, 65536, 0)
	stub(5, 2, 0, 1, 0, 65536, 0)
	stub(5, 1, 1, 1, 1, 65536, 0)
	stub(6, 2, 0, 0, 2, 3, 1)
	stub(6, 1, 0, 1, 2, 4, 2)
	stub(8, 0, 0, 1, 2, 4, 2)
	stub(7, 3, 0, 0, 1, 3, 2)
	if !r.quick() {
		stub(6, 2, 0, 1, 0, 65536, 0)
		stub(5, 5, 1, 1, 0, 65536, 0)
		stub(7, 2, 0, 1, 2, 5, 3)
		stub(6, 3, 1, 0, 2, 4, 2)
		stub(9, 0, 0, 1, 1, 5, 4)
	}
	r.do("bufio.Scanner with any such split function", js)
}

func init() {
	addCheck(&Check{ID: "C13", Technique: techProps, Bounds: []string{
		"every pair of combinations of the 15 classes (no class, 13 break classes, 1 emoji class) and 4 conjunct values: complete",
		"every name of up to 24 (quick) or 40 (thorough) arbitrary bytes, up to 24 also after a look-up of any of the names; every name with up to 70,000 more bytes, three of them arbitrary; other long names are outside",
	}, Plan: func(r *Run) {
		js := []*Job{
			job(hName, "VerifPack", "pack", "every pair of combinations of a class and a conjunct value"),
			job(hName, "VerifMarker", "marker", "every class and conjunct value against the marker of malformed input"),
			job(hName, "VerifNames", "names", "every value's own name"),
			job(hName, "VerifDistinct", "distinct", "every pair of classes"),
			job(hName, "VerifDistinctConjunct", "distinct", "every pair of conjunct values")}
		max := 24
		if !r.quick() {
			max = 40
		}
		for n := 0; n <= max; n++ {
			js = append(js, job(hName, "VerifLookup", "lookup", "every name of n bytes", "n", n, "prior", 0))
			if n <= 24 {
				js = append(js, job(hName, "VerifLookup", "lookup", "every name of n bytes, after a look-up of one of the names", "n", n, "prior", 1))
			}
		}
		for _, n := range []int{1, 2, 3, 8, 100, 232, 237, 238, 244, 250, 256, 300, 1030, 4100, 33000, 70000} {
			for _, at := range []int{0, 1} {
				j := job(hName, "VerifLongName", "lookup", "every name with n more bytes behind (at=0) or before it (at=1), three of them arbitrary", "n", n, "at", at)
				j.LoopCap = 1000 + 10*n
				js = append(js, j)
			}
		}
		r.do("packing and naming", js)
	}})
}

func init() {
	addCheck(&Check{ID: "C14", Technique: techGen, Bounds: []string{
		"up to 4 assignments at arbitrary places (within blocks of code points given per query, in all four UTF-8 lengths, at the start, the end and across block edges), of arbitrary properties, single code points or ranges, in one or several of the three files, besides the ASCII ones that every Unicode version has; every scalar value of every encoded length looked up",
		"two ranges of up to 3000 code points with one symbolic bit in each length and symbolic properties, at 5 places; 7 dense layouts in which every code point of seven blocks has a property of its own; both orders of iteration of every map",
		"layouts with 40 to 5000 (quick) or 16000 (thorough) assigned blocks, fixed but for the last block; every code point of the area looked up",
		"outside: other combinations of blocks; ranges of more than a few code points at arbitrary places; map iteration orders other than insertion and its reverse; data without the ASCII assignments (the generator stops there)",
	}, Plan: func(r *Run) {
		var js []*Job
		build := func(m int, b [3]int, grp, lens, q, width, split int) {
			js = append(js, job(hGen, "VerifBuild", "build", "m assignments at arbitrary places within `width` code points from b0, b1, b2; digits of groups from the right: kinds of property; of lens: greatest length of a range less 1; q: encoded length of the code points looked up", "m", m, "b0", b[0], "b1", b[1], "b2", b[2], "groups", grp, "lens", lens, "q", q, "width", width, "split", split))
		}
		many := func(n, base, step, sym int) {
			js = append(js, job(hGen, "VerifMany", "many", "n assigned blocks, step code points apart from base on; with sym=1 the last one is at an arbitrary place and of an arbitrary property", "n", n, "base", base, "step", step, "sym", sym))
		}
		if !r.quick() {
			many(16000, 65536, 64, 0)
			many(10000, 0xE000, 80, 0)
			many(3000, 0x10000, 340, 0)
		}
		many(5000, 65536, 64, 0)
		many(1100, 65536, 64, 0)
		many(800, 2048, 64, 0)
		many(240, 0x10000, 4096, 0)
		many(40, 196608, 4096, 1)
		for i, seed := range []int{1, 2, 3, 4, 5, 6, 7} {
			js = append(js, job(hGen, "VerifDense", "dense", "every code point of n blocks of interest has properties of its own, laid out by the seed", "n", 7, "first", 7*i, "seed", seed, "q", 2+i%3))
		}
		rng := func(b0, len0, b1, len1, grp, q int) {
			j := job(hGen, "VerifRange", "range", "ranges of len0 or len0-1, and len1 or len1-1 code points from about b0 and b1 on, of arbitrary properties", "b0", b0, "len0", len0, "b1", b1, "len1", len1, "groups", grp, "q", q)
			js = append(js, j)
		}
		rng(0x3FE, 200, 0x410, 100, 30, 2)
		rng(0xAC00, 3000, 0xB000, 600, 40, 3)
		rng(0xF8F0, 0x800, 0xFFF0, 40, 30, 4)
		rng(0xE0F0, 300, 0x1F300, 200, 23, 4)
		rng(0x7C0, 64, 0x800, 64, 30, 3)
		type b3 = [3]int
		for q := 1; q <= 4; q++ {
			build(1, b3{768}, 0, 0, q, 64, 0)
			build(1, b3{2304}, 1, 0, q, 64, 0)
			build(1, b3{127936}, 2, 0, q, 64, 0)
			build(2, b3{128, 1984}, 30, 0, q, 8, 0)
			build(2, b3{2304, 2304}, 30, 0, q, 64, 0)
			build(2, b3{65536, 65536}, 42, 0, q, 8, 0)
			build(3, b3{65536, 69632, 917504}, 325, 0, q, 8, 0)
			build(3, b3{2304, 2304, 4352}, 430, 0, q, 8, 0)
		}
		build(2, b3{768, 832}, 0, 0, 2, 64, 0)
		build(2, b3{768, 12}, 10, 0, 2, 8, 0)
		build(2, b3{256, 256}, 43, 0, 2, 16, 0)
		build(1, b3{65534}, 0, 3, 4, 2, 1)
		build(1, b3{65534}, 0, 3, 3, 2, 1)
		build(1, b3{126}, 5, 3, 2, 2, 1)
		build(1, b3{2046}, 1, 3, 3, 2, 1)
		build(1, b3{0x10FFFC}, 2, 3, 4, 2, 1)
		build(2, b3{2046, 2044}, 31, 12, 3, 2, 1)
		build(3, b3{0x3400, 0x3480, 0xA000}, 0, 0, 3, 4, 0)
		if !r.quick() {
			for _, b := range []b3{{0x80, 0x100, 0x7C0}, {0x800, 0x840, 0xFFC0}, {0x10000, 0x20000, 0x10FFC0}, {0xC0, 0x900, 0x1F600}, {0xFC0, 0x1000, 0x3F000}} {
				for _, g := range []int{0, 430, 325, 44, 33, 105, 210} {
					for q := 2; q <= 4; q++ {
						build(3, b, g, 0, q, 8, 0)
					}
				}
			}
			for _, b := range []int{126, 0x7FC, 0xFFE, 0x10FE, 0xFFFC, 0x1FFFE, 0x3FFFC, 0x10FFF0} {
				for q := 2; q <= 4; q++ {
					build(1, b3{b}, 0, 4, q, 6, 1)
					build(2, b3{b, b}, 30, 33, q, 2, 1)
				}
			}
			many(40, 0x10000, 64, 1)
			many(64, 0x900, 64, 1)
		}
		r.do("builder", js)
	}})
}

const techGen = "symbolic execution of the Go SSA of the table builder together with the parser and the bufio, maps and slices code under it, on data files with symbolic contents; SMT (z3, cvc5) decides that the built tables give every code point its properties; counterexamples replayed natively"

func init() {
	addCheck(&Check{ID: "C15", Technique: "go generate is run on the repository's own Unicode data in a scratch copy, and the SSA of the character lookup over the tables it produced is executed symbolically; SMT (z3, cvc5) decides the class of every scalar value and the agreement with the checked-in tables; counterexamples replayed natively", Bounds: []string{
		"every one of the 1,112,064 scalar values, in its UTF-8 form: complete",
		"the generator itself runs concretely, with the one set of data files the property is about (C14 treats the builder for arbitrary data)",
	}, Assume: []string{"the reference classification in harness/nd/ref.go, generated by tools/mkref.py from the Unicode 17.0 data files at the pinned commit"}, Plan: func(r *Run) {
		// the generator must produce tables at all, and the same ones again
		first, out, err := regenerate("regen-1")
		if err != nil {
			if _, out2, err2 := regenerate("regen-2"); err2 != nil && r.buildsPackages() {
				r.report(&Replay{What: "the generator fails on the data files in the repository: " + tail(out2, 600), HowTo: "in a copy of the repository: cd " + charpropsDir + " && go generate ."})
				return
			}
			r.reduce("the generator did not run: %v: %s", err, tail(out, 400))
			return
		}
		r.extra["generated_files"] = sortedLens(first)
		if hRegen.prepare() != nil {
			r.reduce("the generator did not run: %v", hRegen.prepErr)
			return
		}
		var js []*Job
		for l := 4; l >= 1; l-- {
			js = append(js, job(hRegen, "VerifRegen", "regen", "all scalar values of len bytes under the regenerated tables", "len", l),
				job(hRegen, "VerifAgree", "agree", "all scalar values of len bytes under the regenerated and the checked-in tables", "len", l))
		}
		r.do("regenerated tables", js)
	}})
}

// buildsPackages: the packages behind the generator compile.
func (r *Run) buildsPackages() bool {
	gb := newestGo()
	cmd := exec.Command(gb, "build", "./...")
	cmd.Dir = repoDir
	cmd.Env = goEnv(gb)
	return cmd.Run() == nil
}

func sortedLens(m map[string]string) []string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s (%d bytes)", k, len(v)))
	}
	sort.Strings(l)
	return l
}

// rawJobs: files of n units, the kinds of the first two given by parameters.
func rawJobs(fn string, n, first, kinds int) []*Job {
	var js []*Job
	for a := 0; a < first; a++ {
		for b := 0; b < first; b++ {
			js = append(js, job(hUCD, fn, "raw", "file of n units of every combination of the first `kinds` kinds of byte, every byte of each kind; the first two units are of kinds k0 and k1", "n", n, "kinds", kinds, "k0", a, "k1", b))
		}
	}
	return js
}

const techUCD = "symbolic execution of the Go SSA of the parser together with bufio.Scanner, bytes and strconv as the toolchain has them; SMT (z3, cvc5) decides the assertions for all bytes of every file shape within the bounds; counterexamples replayed natively"

func init() {
	addCheck(&Check{ID: "C16", Technique: techUCD, Bounds: []string{
		"data lines with code points of 1-6 (thorough: up to 8) hex digits, single or ranges, up to 3 (quick) or 4 (thorough) fields of up to 3 (quick) or 6 (thorough) arbitrary printable ASCII characters, space before and after each, comments of arbitrary bytes, every line ending, comment and blank lines between, delivered at once or in small reads",
		"lines of up to 63,000 bytes, fields of up to 80 characters and of bytes beyond ASCII, 20 fields, files of up to 60 data lines of which all entries are kept (thorough: 8 times that), with a few arbitrary bytes each, and of 1100 fixed ones; a line of 70,000 bytes",
		"malformed code points of up to 8 arbitrary ASCII characters",
		"besides every file of up to 4 (quick) or 5 (thorough) ASCII bytes, and of 5 (quick) or 6 (thorough) bytes out of digits, A-F, ; . # space and line ends",
		"outside: other long lines, fields that begin or end with bytes beyond ASCII",
	}, Plan: func(r *Run) {
		var js []*Job
		line := func(before, d1, d2, sp, nf, flen, cmt, eol int) {
			js = append(js, job(hUCD, "VerifLine", "line", "a data line: d1 and d2 hex digits, sp blanks at each place, nf fields of flen characters, comment of cmt bytes, eol 0 LF, 1 CR LF, 2 none; before it a comment line of `before` bytes", "before", before, "d1", d1, "d2", d2, "sp", sp, "nf", nf, "flen", flen, "cmt", cmt, "eol", eol))
		}
		line(-1, 4, 0, 0, 1, 1, -1, 0)
		line(-1, 6, 0, 1, 1, 3, 2, 0)
		line(2, 4, 4, 1, 1, 3, 2, 0)
		line(-1, 5, 5, 1, 2, 2, 0, 1)
		line(0, 6, 6, 1, 2, 1, 3, 2)
		line(-1, 1, 2, 0, 3, 2, -1, 2)
		line(-1, 4, 6, 2, 3, 1, -1, 0)
		line(3, 5, 4, 1, 2, 3, 3, 1)
		line(-1, 4, 0, 1, 2, 0, 1, 0)
		lines := func(d1, d2, flen, cmt, gap, step int) {
			js = append(js, job(hUCD, "VerifLines", "lines", "two data lines, with lines without data of gap characters between them and after them, delivered in reads of at most step bytes (0: at once)", "d1", d1, "d2", d2, "flen", flen, "cmt", cmt, "gap", gap, "step", step))
		}
		lines(4, 4, 2, 2, 1, 0)
		lines(4, 0, 2, -1, 0, 3)
		lines(5, 5, 1, 1, 1, 1)
		lines(4, 0, 1, 2, 2100, 64)
		lines(4, 0, 1, 0, 5000, 0)
		long := func(nf, flen, at, cmt, step int) {
			js = append(js, job(hUCD, "VerifLong", "long", "a data line of nf fields of flen fixed characters with two arbitrary ones at either end of the fields at and at+1, a comment of cmt bytes", "nf", nf, "flen", flen, "at", at, "cmt", cmt, "step", step))
		}
		long(20, 80, 7, 300, 0)
		long(3, 60, 1, 3000, 100)
		many := func(n, at, cmt, step, more int) {
			js = append(js, job(hUCD, "VerifMany", "many", "n data lines, fixed but for a digit and a character in every tenth, comments of cmt bytes; `more` further characters in every third; all entries kept", "n", n, "at", at, "cmt", cmt, "step", step, "more", more))
		}
		many(60, 3, 100, 0, 0)
		many(30, 9, 200, 77, 0)
		many(20, 2, 30, -50, 0)
		many(1100, 11, 3, 0, 0)
		many(12, 4, 9, 0, 60)
		many(24, 7, 0, 300, 700)
		many(7, 4, 0, 0, 5000)
		for _, c := range []int{0, 1} {
			js = append(js, job(hUCD, "VerifTooLong", "toolong", "a line of more than n bytes, in the field or (comment=1) the comment", "n", 70000, "comment", c))
		}
		held := func(before, n, beyond, step int) {
			js = append(js, job(hUCD, "VerifHeld", "held", "a line of n bytes and more with arbitrary bytes beyond ASCII in its field, after a comment line of `before` bytes, in reads of step bytes (negative: with empty reads and the end reported with the last data)", "before", before, "n", n, "beyond", beyond, "step", step))
		}
		held(10, 20, 3, 0)
		held(0, 100, 2, -7)
		held(64000, 33000, 1, 0)
		held(5, 63000, 2, 4096)
		lines(4, 4, 1, 2, 1, -3)
		lines(5, 0, 1, -1, 300, -64)
		bad := func(d, second int) {
			js = append(js, job(hUCD, "VerifBad", "bad", "malformed code point of d characters, at the start or (second=1) the end of a range", "d", d, "second", second))
		}
		for _, d := range []int{1, 3, 4, 6, 8} {
			bad(d, 0)
			bad(d, 1)
		}
		js = append(js, job(hUCD, "VerifReadError", "readerror", "a reader that fails at once or after a line"))
		if !r.quick() {
			for d := 1; d <= 8; d++ {
				line(1, d, 0, 1, 1, 4, 4, 0)
				line(-1, d, d, 2, 2, 2, 2, 1)
				bad(d, 0)
				bad(d, 1)
			}
			for f := 1; f <= 6; f++ {
				line(-1, 4, 4, 1, 2, f, 1, 0)
				line(-1, 4, 0, 1, 4, min(f, 3), -1, 0)
			}
			for s := 1; s <= 8; s++ {
				lines(4, 4, 2, 2, 1, s)
				lines(6, 0, 3, 1, 0, s)
				lines(5, 5, 1, 1, 1500+400*s, 0)
				lines(4, 0, 1, 1, 4000-300*s, 13*s)
				long(12*s, 10*s, 4*s, 900*s, 40*s)
				many(40*s, s, 30*s, 0, 0)
			}
		}
		r.do("lines", js)
		if r.quick() {
			r.do("short files", append(rawJobs("VerifRaw", 4, 12, 12), rawJobs("VerifRaw", 5, 8, 8)...))
			r.do("short files", rawJobs("VerifRaw", 3, 20, 20))
		} else {
			r.do("short files", append(rawJobs("VerifRaw", 4, 20, 20), rawJobs("VerifRaw", 5, 12, 12)...))
			r.do("short files", rawJobs("VerifRaw", 6, 8, 8))
		}
	}})
	addCheck(&Check{ID: "C17", Technique: techUCD, Bounds: []string{
		"test lines of up to 3 (quick) or 5 (thorough) characters of 4-6 hex digits, every scalar value, break and no-break marks in every arrangement, with and without blanks, comments of arbitrary bytes, every line ending, comment and blank lines around, delivered at once or in small reads; two lines after one another",
		"lines of up to 5500 characters or 64,000 bytes, and files of up to 60 lines of which all entries are kept (thorough: 300 and 240), with a few arbitrary digits and marks each, and of 900 fixed ones; a line of 70,000 bytes",
		"invalid characters of up to 8 arbitrary ASCII characters, surrogates and numbers beyond U+10FFFF included",
		"besides every file of up to 4 (quick) or 5 (thorough) units, a unit being a mark or one of all or the most telling ASCII bytes",
		"outside: other long lines",
	}, Plan: func(r *Run) {
		var js []*Job
		test := func(before, n, d, sp, cmt, eol, utf8 int) {
			js = append(js, job(hUCD, "VerifTest", "test", "a test line of n characters of d hex digits, sp blanks at each place, comment of cmt bytes, eol 0 LF, 1 CR LF, 2 none; decimal digits of utf8 from the right: encoded length of each character (0: any)", "before", before, "n", n, "d", d, "sp", sp, "cmt", cmt, "eol", eol, "utf8", utf8))
		}
		test(-1, 1, 4, 1, 1, 0, 0)
		test(-1, 2, 4, 1, 1, 0, 0)
		test(1, 1, 6, 1, 1, 1, 0)
		test(-1, 2, 5, 0, -1, 2, 0)
		test(1, 3, 4, 1, 2, 0, 321)
		test(-1, 3, 5, 0, -1, 1, 434)
		test(-1, 3, 4, 1, -1, 0, 333)
		tests := func(n, n2, d, step, utf8 int) {
			js = append(js, job(hUCD, "VerifTests", "tests", "two test lines of n and n2 characters, delivered in reads of at most step bytes (0: at once)", "n", n, "n2", n2, "d", d, "step", step, "utf8", utf8))
		}
		tests(1, 1, 4, 0, 0)
		tests(2, 1, 4, 0, 133)
		tests(1, 2, 5, 5, 343)
		long := func(n, at, w, every, cmt, step, d, utf8 int) {
			js = append(js, job(hUCD, "VerifTestLong", "long", "a test line of n characters, all fixed but the one at number at (d digits, encoded length utf8) and the w marks from there on", "n", n, "at", at, "w", w, "every", every, "cmt", cmt, "step", step, "d", d, "utf8", utf8))
		}
		long(60, 20, 2, 5, 500, 0, 5, 4)
		long(100, 90, 2, 50, 50, 333, 4, 3)
		long(33, 31, 3, 2, 0, 0, 4, 2)
		many := func(n, at, cmt, step, more int) {
			js = append(js, job(hUCD, "VerifTestMany", "many", "n test lines, fixed but for a character in every tenth, comments of cmt bytes; `more` further characters in every third; all entries kept", "n", n, "at", at, "cmt", cmt, "step", step, "more", more))
		}
		many(60, 3, 100, 0, 0)
		many(20, 9, 300, 77, 0)
		many(20, 2, 30, -50, 0)
		many(900, 11, 3, 0, 0)
		many(12, 4, 9, 0, 20)
		many(24, 7, 0, 300, 100)
		many(7, 4, 0, 0, 2000)
		for _, c := range []int{0, 1} {
			js = append(js, job(hUCD, "VerifTestTooLong", "toolong", "a line of more than n bytes, blanks between characters or (comment=1) the comment", "n", 70000, "comment", c))
		}
		long(5500, 5490, 2, 50, 5, 0, 4, 3)
		long(40, 20, 2, 5, 64000, 4096, 5, 4)
		tests(2, 2, 4, -3, 1212)
		for _, d := range []int{1, 3, 4, 5, 6, 8} {
			js = append(js, job(hUCD, "VerifTestBad", "bad", "invalid character of d arbitrary ASCII characters", "d", d, "after", d%2))
		}
		js = append(js, job(hUCD, "VerifReadError", "readerror", "a reader that fails at once"))
		if !r.quick() {
			for _, d := range []int{1, 2, 3, 4, 5, 6, 7, 8} {
				js = append(js, job(hUCD, "VerifTestBad", "bad", "invalid character of d arbitrary ASCII characters", "d", d, "after", 1-d%2))
				test(2, 1, d, 2, 2, 0, 0)
			}
			for _, u := range []int{111, 222, 333, 444, 123, 314, 431, 342, 134, 413} {
				test(-1, 3, 5, 1, 0, 2, u)
				test(-1, 4, 5, 0, 0, 0, u*10+u%10)
			}
			test(-1, 5, 5, 0, -1, 2, 34343)
			test(-1, 5, 4, 0, -1, 0, 33333)
			test(-1, 5, 4, 0, -1, 0, 12321)
			for s := 1; s <= 6; s++ {
				tests(2, 1, 4, s, 333)
				tests(1, 2, 5, s, 434)
				long(50*s, 49*s, 3, 3*s, 300*s, 100*s, 5, 3)
				long(200, 30*s, 4, 200, 0, 0, 5, 4)
				many(40*s, s, 30*s, 0, 0)
			}
		}
		r.do("lines", js)
		if r.quick() {
			r.do("short files", append(rawJobs("VerifTestRaw", 4, 8, 8), rawJobs("VerifTestRaw", 3, 20, 20)...))
		} else {
			r.do("short files", append(rawJobs("VerifTestRaw", 4, 20, 20), rawJobs("VerifTestRaw", 5, 8, 8)...))
		}
	}})
}

const techProps = "symbolic execution of the Go SSA of the property functions; SMT (z3, cvc5) decides the assertions for all values and all names within the bounds; counterexamples replayed natively"
const techE2E = "symbolic execution of the Go SSA of the scanner; SMT (z3, cvc5) decides the assertions for all byte contents within the stated shapes; counterexamples replayed natively"

func cat(l ...[]shape) []shape {
	var r []shape
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}
