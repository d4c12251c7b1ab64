package main

// C18: which files of the autoversion package each Go release selects, as a
// formula over the release, the platform and the toolchain's tags.

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// the platforms of the go command (go tool dist list and the reserved names)
var knownOS = strings.Fields("aix android darwin dragonfly freebsd hurd illumos ios js linux nacl netbsd openbsd plan9 solaris wasip1 windows zos")
var unixOS = strings.Fields("aix android darwin dragonfly freebsd hurd illumos ios linux netbsd openbsd solaris")
var knownArch = strings.Fields("386 amd64 amd64p32 arm armbe arm64 arm64be loong64 mips mipsle mips64 mips64le mips64p32 mips64p32le ppc ppc64 ppc64le riscv riscv64 s390 s390x sparc sparc64 wasm")

// tags that the toolchain sets by itself depending on how it is run
var toolTags = strings.Fields("cgo race msan asan boringcrypto")

type conFile struct {
	name   string
	expr   string // SMT-LIB condition of its selection
	decls  []string
	ast    *ast.File
	isMain bool
}

type conModel struct {
	files []*conFile
	tags  map[string]bool // free Boolean tags
	fset  *token.FileSet
	name  string // package name
}

func smtOr(l []string) string {
	switch len(l) {
	case 0:
		return "false"
	case 1:
		return l[0]
	}
	return "(or " + strings.Join(l, " ") + ")"
}

func smtAnd(l []string) string {
	switch len(l) {
	case 0:
		return "true"
	case 1:
		return l[0]
	}
	return "(and " + strings.Join(l, " ") + ")"
}

func index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

var relTag = regexp.MustCompile(`^go1\.(\d+)$`)

func (m *conModel) tag(t string) string {
	if x := relTag.FindStringSubmatch(t); x != nil {
		n, err := strconv.Atoi(x[1])
		if err != nil || n > 1<<30 {
			return "false"
		}
		return fmt.Sprintf("(>= minor %d)", n)
	}
	if i := index(knownOS, t); i >= 0 {
		l := []string{fmt.Sprintf("(= os %d)", i)}
		for sub, super := range map[string]string{"android": "linux", "illumos": "solaris", "ios": "darwin"} {
			if t == super {
				l = append(l, fmt.Sprintf("(= os %d)", index(knownOS, sub)))
			}
		}
		return smtOr(l)
	}
	if t == "unix" {
		var l []string
		for _, o := range unixOS {
			l = append(l, fmt.Sprintf("(= os %d)", index(knownOS, o)))
		}
		return smtOr(l)
	}
	if i := index(knownArch, t); i >= 0 {
		return fmt.Sprintf("(= arch %d)", i)
	}
	if t == "gc" {
		return "true"
	}
	if t == "cgo" || index(toolTags, t) >= 0 || strings.HasPrefix(t, "goexperiment.") {
		m.tags[t] = true
		return "|tag " + t + "|"
	}
	return "false" // tags nobody asked for, "ignore" among them
}

func (m *conModel) cond(x constraint.Expr) string {
	switch x := x.(type) {
	case *constraint.TagExpr:
		return m.tag(x.Tag)
	case *constraint.NotExpr:
		return "(not " + m.cond(x.X) + ")"
	case *constraint.AndExpr:
		return smtAnd([]string{m.cond(x.X), m.cond(x.Y)})
	case *constraint.OrExpr:
		return smtOr([]string{m.cond(x.X), m.cond(x.Y)})
	}
	return "false"
}

// nameCond is the condition given by the end of a file name.
func (m *conModel) nameCond(name string) string {
	name, _, _ = strings.Cut(name, ".")
	i := strings.Index(name, "_")
	if i < 0 {
		return "true"
	}
	l := strings.Split(name[i:], "_")
	if n := len(l); n > 0 && l[n-1] == "test" {
		l = l[:n-1]
	}
	n := len(l)
	if n >= 2 && index(knownOS, l[n-2]) >= 0 && index(knownArch, l[n-1]) >= 0 {
		return smtAnd([]string{m.tag(l[n-1]), m.tag(l[n-2])})
	}
	if n >= 1 && (index(knownOS, l[n-1]) >= 0 || index(knownArch, l[n-1]) >= 0) {
		return m.tag(l[n-1])
	}
	return "true"
}

// fileCond is the condition given by the constraint lines of a file.
func (m *conModel) fileCond(f *ast.File) (string, error) {
	var plus []string
	for _, g := range f.Comments {
		if g.Pos() >= f.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err != nil {
					return "", err
				}
				return m.cond(x), nil
			}
		}
		// old lines count only in comments followed by a blank line
		if m.fset.Position(g.End()).Line+1 < m.fset.Position(f.Package).Line {
			for _, c := range g.List {
				if constraint.IsPlusBuild(c.Text) {
					x, err := constraint.Parse(c.Text)
					if err != nil {
						return "", err
					}
					plus = append(plus, m.cond(x))
				}
			}
		}
	}
	return smtAnd(plus), nil
}

// readConstraints encodes the files of the package in dir.
func readConstraints(dir string) (*conModel, error) {
	m := &conModel{tags: map[string]bool{}, fset: token.NewFileSet()}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, p := range fs {
		b := filepath.Base(p)
		if strings.HasSuffix(b, "_test.go") || strings.HasPrefix(b, "_") || strings.HasPrefix(b, ".") {
			continue
		}
		f, err := parser.ParseFile(m.fset, p, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		c, err := m.fileCond(f)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", b, err)
		}
		cf := &conFile{name: b, expr: smtAnd([]string{m.nameCond(b), c}), ast: f}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				cf.expr = smtAnd([]string{cf.expr, m.tag("cgo")})
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name != "init" {
					cf.decls = append(cf.decls, d.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.Name != "_" {
								cf.decls = append(cf.decls, n.Name)
							}
						}
					case *ast.TypeSpec:
						cf.decls = append(cf.decls, s.Name.Name)
					}
				}
			}
		}
		m.files = append(m.files, cf)
	}
	return m, nil
}

func (m *conModel) preamble() string {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_LIA)\n(declare-const minor Int)\n(declare-const os Int)\n(declare-const arch Int)\n(assert (>= minor 1))\n")
	fmt.Fprintf(&b, "(assert (and (>= os 0) (< os %d) (>= arch 0) (< arch %d)))\n", len(knownOS), len(knownArch))
	var ts []string
	for t := range m.tags {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		fmt.Fprintf(&b, "(declare-const |tag %s| Bool)\n", t)
	}
	for i, f := range m.files {
		fmt.Fprintf(&b, "(define-fun sel%d () Bool %s) ; %s\n", i, f.expr, f.name)
	}
	return b.String()
}

// a configuration of the toolchain
type conf struct {
	minor, os, arch int
	tags            map[string]bool
	sel             []bool
}

func (c *conf) String() string {
	var ts []string
	for t, v := range c.tags {
		if v {
			ts = append(ts, t)
		}
	}
	sort.Strings(ts)
	return strings.TrimSpace(fmt.Sprintf("Go 1.%d %s/%s %s", c.minor, knownOS[c.os], knownArch[c.arch], strings.Join(ts, " ")))
}

type conQuery struct {
	solved  int
	unknown int
	time    time.Duration
	by      map[string]int
}

// solve asks z3 and cvc5; both answers have to agree.
func (q *conQuery) solve(m *conModel, asserts []string) (Sat, *conf) {
	var b strings.Builder
	b.WriteString(m.preamble())
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	b.WriteString("(check-sat)\n(get-value (minor os arch")
	var ts []string
	for t := range m.tags {
		ts = append(ts, t)
		fmt.Fprintf(&b, " |tag %s|", t)
	}
	for i := range m.files {
		fmt.Fprintf(&b, " sel%d", i)
	}
	b.WriteString("))\n")
	res := Unknown
	var model *conf
	t0 := time.Now()
	for _, s := range []struct {
		bin  string
		args []string
	}{{"z3-new", []string{"-in"}}, {"cvc5", []string{"--lang=smt2", "--quiet"}}} {
		p := solverPath(s.bin)
		if p == "" {
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, p, s.args...)
		cmd.Stdin = strings.NewReader(b.String())
		out, _ := cmd.Output()
		cancel()
		first, rest, _ := strings.Cut(string(out), "\n")
		r := Unknown
		switch strings.TrimSpace(first) {
		case "sat":
			r = IsSat
		case "unsat":
			r = IsUnsat
		}
		if r == Unknown {
			continue
		}
		q.by[s.bin]++
		if res != Unknown && r != res {
			q.unknown++
			return Unknown, nil
		}
		res = r
		if r == IsSat && model == nil {
			model = m.parseConf(rest)
		}
	}
	q.time += time.Since(t0)
	q.solved++
	if res == Unknown {
		q.unknown++
	}
	return res, model
}

var smtPair = regexp.MustCompile(`\(\s*(\|tag [^|]*\||\w+)\s+(true|false|\d+)\s*\)`)

func (m *conModel) parseConf(s string) *conf {
	c := &conf{tags: map[string]bool{}, sel: make([]bool, len(m.files))}
	for _, x := range smtPair.FindAllStringSubmatch(s, -1) {
		n, _ := strconv.Atoi(x[2])
		switch {
		case x[1] == "minor":
			c.minor = n
		case x[1] == "os":
			c.os = n
		case x[1] == "arch":
			c.arch = n
		case strings.HasPrefix(x[1], "|tag "):
			c.tags[strings.Trim(x[1][5:], "|")] = x[2] == "true"
		case strings.HasPrefix(x[1], "sel"):
			i, _ := strconv.Atoi(x[1][3:])
			if i < len(c.sel) {
				c.sel[i] = x[2] == "true"
			}
		}
	}
	return c
}

// realSelection asks go/build, the implementation behind the go command.
func (m *conModel) realSelection(dir string, c *conf) ([]bool, error) {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.Compiler = knownOS[c.os], knownArch[c.arch], "gc"
	ctx.CgoEnabled = c.tags["cgo"]
	ctx.BuildTags = nil
	ctx.ToolTags = nil
	for t, v := range c.tags {
		if v && t != "cgo" {
			ctx.ToolTags = append(ctx.ToolTags, t)
		}
	}
	ctx.ReleaseTags = nil
	for i := 1; i <= c.minor && i < 1000; i++ {
		ctx.ReleaseTags = append(ctx.ReleaseTags, fmt.Sprintf("go1.%d", i))
	}
	var l []bool
	for _, f := range m.files {
		ok, err := ctx.MatchFile(dir, f.name)
		if err != nil {
			return nil, err
		}
		if ok && !c.tags["cgo"] {
			for _, im := range f.ast.Imports {
				if im.Path.Value == `"C"` {
					ok = false
				}
			}
		}
		l = append(l, ok)
	}
	return l, nil
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported")
}

// constant evaluates an integer constant of the package made of the selected
// files; ok is false if there is none or it depends on imported packages.
func (m *conModel) constant(sel []bool, name string) (int64, bool) {
	var fs []*ast.File
	for i, f := range m.files {
		if sel[i] {
			fs = append(fs, f.ast)
		}
	}
	cfg := types.Config{Error: func(error) {}, Importer: noImports{}, FakeImportC: true}
	pkg, _ := cfg.Check("p", m.fset, fs, nil)
	if pkg == nil {
		return 0, false
	}
	c, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val() == nil || c.Val().Kind() != constant.Int {
		return 0, false
	}
	v, exact := constant.Int64Val(c.Val())
	return v, exact
}

const (
	firstRelease = 21
	lastRelease  = 27
)

func (m *conModel) declaring(name string) []int {
	var l []int
	for i, f := range m.files {
		if contains(f.decls, name) {
			l = append(l, i)
		}
	}
	return l
}

func exactlyOne(l []int) string {
	var alts []string
	for _, i := range l {
		c := []string{fmt.Sprintf("sel%d", i)}
		for _, j := range l {
			if j != i {
				c = append(c, fmt.Sprintf("(not sel%d)", j))
			}
		}
		alts = append(alts, smtAnd(c))
	}
	return smtOr(alts)
}

func anyOf(l []int) string {
	var a []string
	for _, i := range l {
		a = append(a, fmt.Sprintf("sel%d", i))
	}
	return smtOr(a)
}

// checkConstraints decides C18's selection part.
func checkConstraints(r *Run) {
	dir := filepath.Join(repoDir, "autoversion", "textseg")
	m, err := readConstraints(dir)
	if err != nil {
		r.reduce("build constraints: %v", err)
		return
	}
	t0 := time.Now()
	q := &conQuery{by: map[string]int{}}
	supported := fmt.Sprintf("(and (>= minor %d) (<= minor %d))", firstRelease, lastRelease)
	res := &JobResult{Job: &Job{H: hAuto[27], Fn: "BuildConstraints", Params: map[string]int{}, Note: "every Go release, platform and toolchain tag"}, Funcs: map[string]int{}, Stubs: map[string]int{}, Solvers: map[string]int{}}
	for _, f := range m.files {
		res.Funcs["build constraint of autoversion/textseg/"+f.name] = 1
	}
	res.States, res.Trans, res.Bits = len(m.files), len(m.files), 32*3+len(m.tags)
	// judge re-evaluates an obligation on the selection that go/build makes
	oblige := func(what string, asserts []string, judge func(sel []bool, minor int) bool) {
		res.Asserts++
		if r.stopped {
			return
		}
		s, c := q.solve(m, asserts)
		switch {
		case s == IsUnsat:
			res.Discharged++
		case s == Unknown:
			res.UnknownN++
			r.reduce("build constraints: no answer for %q", what)
		default:
			res.SatN++
			sel, err := m.realSelection(dir, c)
			if err != nil {
				r.reduce("build constraints: %v", err)
				return
			}
			var names []string
			for i, f := range m.files {
				if sel[i] {
					names = append(names, f.name)
				}
			}
			if !judge(sel, c.minor) {
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s: the formula says %v for %s, go/build selects %v", what, c.sel, c, names))
				r.reduce("build constraints: go/build does not confirm the counterexample %s", c)
				return
			}
			r.report(&Replay{What: fmt.Sprintf("%s: %s selects %v", what, c, names), Harness: "go/build", Case: Case{Id: "BuildConstraints", Vals: map[string]uint64{"minor": uint64(c.minor), "os": uint64(c.os), "arch": uint64(c.arch)}},
				HowTo: fmt.Sprintf("go/build.Context{GOOS: %q, GOARCH: %q, ReleaseTags: go1.1 to go1.%d}.MatchFile of each file in autoversion/textseg", knownOS[c.os], knownArch[c.arch], c.minor)})
		}
	}
	count := func(sel []bool, l []int) int {
		n := 0
		for _, i := range l {
			if sel[i] {
				n++
			}
		}
		return n
	}
	scan, vers := m.declaring("ScanGraphemeClusters"), m.declaring("UnicodeMajorVersion")
	oblige("a supported release has exactly one cluster scanner", []string{supported, "(not " + exactlyOne(scan) + ")"}, func(sel []bool, n int) bool { return count(sel, scan) != 1 })
	oblige("a supported release has exactly one Unicode version", []string{supported, "(not " + exactlyOne(vers) + ")"}, func(sel []bool, n int) bool { return count(sel, vers) != 1 })
	oblige("an unsupported release has no cluster scanner", []string{"(not " + supported + ")", anyOf(scan)}, func(sel []bool, n int) bool { return count(sel, scan) > 0 })
	// two declarations of one name do not build
	seen := map[string]bool{}
	for _, f := range m.files {
		for _, d := range f.decls {
			if l := m.declaring(d); len(l) > 1 && !seen[d] {
				seen[d] = true
				var two []string
				for x := range l {
					for y := x + 1; y < len(l); y++ {
						two = append(two, fmt.Sprintf("(and sel%d sel%d)", l[x], l[y]))
					}
				}
				oblige("no release selects two declarations of "+d, []string{supported, smtOr(two)}, func(sel []bool, n int) bool { return count(sel, l) > 1 })
			}
		}
	}
	// every selection that occurs for supported releases, and the versions it
	// announces
	std := map[int]int{}
	for n := firstRelease; n <= lastRelease; n++ {
		if std[n] = stdUnicode(n); std[n] == 0 {
			r.reduce("the Unicode version of Go 1.%d is not known here", n)
		}
	}
	r.extra["standard_library_unicode"] = fmt.Sprint(std)
	var block []string
	selections := 0
	for n := 0; n < 200 && !r.stopped; n++ {
		s, c := q.solve(m, append([]string{supported}, block...))
		if s != IsSat {
			if s == Unknown {
				r.reduce("build constraints: the selections could not be listed")
			}
			break
		}
		selections++
		var same []string
		for i := range m.files {
			if c.sel[i] {
				same = append(same, fmt.Sprintf("sel%d", i))
			} else {
				same = append(same, fmt.Sprintf("(not sel%d)", i))
			}
		}
		here := smtAnd(same)
		block = append(block, "(not "+here+")")
		if count(c.sel, vers) != 1 {
			continue // reported above
		}
		v, ok := m.constant(c.sel, "UnicodeMajorVersion")
		if !ok {
			r.reduce("UnicodeMajorVersion of the selection of %s could not be evaluated", c)
			continue
		}
		var bad []string
		for n, u := range std {
			if u != 0 && int64(u) != v {
				bad = append(bad, fmt.Sprintf("(= minor %d)", n))
			}
		}
		sort.Strings(bad)
		oblige(fmt.Sprintf("the Unicode version %d announced is that of the standard library", v), []string{supported, here, smtOr(bad)}, func(sel []bool, n int) bool {
			w, ok := m.constant(sel, "UnicodeMajorVersion")
			return ok && std[n] != 0 && int64(std[n]) != w
		})
	}
	res.Queries, res.SolverTime, res.Wall = q.solved, q.time, time.Since(t0)
	for k, v := range q.by {
		res.Solvers[k] += v
	}
	r.extra["selections_for_supported_releases"] = selections
	// the formula against the real go commands
	for n := firstRelease; n <= lastRelease && !r.stopped; n++ {
		c := &conf{minor: n, os: index(knownOS, "linux"), arch: index(knownArch, "amd64"), tags: map[string]bool{}}
		_, pred := q.solve(m, []string{fmt.Sprintf("(and (= minor %d) (= os %d) (= arch %d))", n, c.os, c.arch)})
		if pred == nil {
			continue
		}
		sel, err := m.realSelection(dir, pred)
		if err == nil && fmt.Sprint(sel) == fmt.Sprint(pred.sel) {
			r.validN++
		} else {
			r.mismatch = append(r.mismatch, fmt.Sprintf("Go 1.%d: formula %v, go/build %v %v", n, pred.sel, sel, err))
		}
		gb := goBin(fmt.Sprintf("1.%d", n))
		if gb == "" {
			continue
		}
		cmd := exec.Command(gb, "list", "-f", "{{range .GoFiles}}{{.}} {{end}}", "./textseg")
		cmd.Dir = filepath.Join(repoDir, "autoversion")
		cmd.Env = goEnv(gb)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		out, err := cmd.Output()
		if err != nil {
			continue // releases before the module's minimum refuse it
		}
		var want []string
		for i, f := range m.files {
			if pred.sel[i] && f.name != "" {
				want = append(want, f.name)
			}
		}
		got := strings.Fields(string(out))
		sort.Strings(got)
		if fmt.Sprint(got) == fmt.Sprint(want) {
			r.validN++
			r.samples = append(r.samples, map[string]any{"release": n, "files": got})
		} else {
			r.mismatch = append(r.mismatch, fmt.Sprintf("Go 1.%d: formula %v, go list %v", n, want, got))
		}
	}
	r.stages = append(r.stages, stage{name: "build constraints", res: []*JobResult{res}})
}

func init() {
	scanPath := func(major int) string {
		return "UNVERSIONED/v" + strconv.Itoa(major) + "/textseg.ScanGraphemeClusters"
	}
	// comparison of the wrapper with an implementation, without looking into it
	stubbed := func(h *Harness, fn string) []*Job {
		var js []*Job
		for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 16, 40, 200} {
			j := job(h, fn, "scan", "every buffer of n bytes; the implementations are arbitrary functions of the content and the flag", "n", n, "text", 0, "stub", 1)
			j.Redirect = map[string]string{scanPath(15): "StubScan", scanPath(17): "StubScan"}
			js = append(js, j)
		}
		for _, n := range []int{256, 300, 1025, 4100, 33000, 70000} {
			j := job(h, fn, "scan", "buffers of n bytes, fixed but for four of them; the implementations are arbitrary functions of the content and the flag", "n", n, "text", -1-n%2, "stub", 1)
			j.Redirect = map[string]string{scanPath(15): "StubScan", scanPath(17): "StubScan"}
			j.LoopCap = 1 << 20
			js = append(js, j)
		}
		return js
	}
	precise := func(v int, fn string, quick bool) []*Job {
		var js []*Job
		h := hAuto[v]
		add := func(n, text int) {
			j := job(h, fn, "scan", "every buffer of n bytes, or of the units given by the digits of text (1-4 length of a sequence, 5 malformed byte), under the real implementations", "n", n, "text", text, "stub", 0)
			j.NoMerge = true
			j.LoopCap = 4000 + 2*n
			js = append(js, j)
		}
		max := 3
		if !quick {
			max = 4
		}
		for n := max; n >= 0; n-- {
			add(n, 0)
		}
		texts := []int{11, 111, 1111, 12, 31, 13, 41, 151, 21}
		if !quick {
			texts = append(texts, 22, 112, 131, 14, 411, 313, 33)
		}
		for _, t := range texts {
			add(16, t)
		}
		if v == 27 {
			add(70000, -2)
		} else { // v15's Ragel machine takes too long with more
			add(70000, -12)
		}
		for i, n := range []int{40, 258, 1030} {
			add(n, -1-i%3)
			add(n, -1-(i+1)%3)
			add(n, -1-(i+2)%3)
		}
		return js
	}
	addCheck(&Check{ID: "C18", Technique: "the build constraints and file names of the autoversion package, read from the source on every run, are encoded as an SMT formula over the Go release (unbounded integer), platform and toolchain tags; z3 and cvc5 decide that every supported release selects exactly one implementation of the right version and every other release none; counterexamples confirmed with go/build; the SSA of the selected scanner is compared symbolically with the implementation of the standard library's version", Bounds: []string{
		"every Go 1.x release number, every platform, every combination of tags the toolchain sets; tags given by the user (-tags) are taken as unset, the compiler as gc",
		"supported releases: Go 1.21 to 1.27; their standard libraries' Unicode versions are read from the installed releases 1.23 to 1.27, that of 1.21 and 1.22 is given",
		"which implementation the selected scanner is: under Go 1.25, 1.26 and 1.27, for every buffer of up to 3 (quick) or 4 (thorough) bytes and some longer ones",
	}, Plan: func(r *Run) {
		checkConstraints(r)
		for _, v := range []int{27, 26, 25} {
			r.do(fmt.Sprintf("implementation under Go 1.%d", v), precise(v, "VerifStd", r.quick()))
			if v == 26 && r.quick() {
				break
			}
		}
	}})
	addCheck(&Check{ID: "C19", Technique: "symbolic execution of the Go SSA of the wrappers and the wrapped packages under Go 1.25, 1.26 and 1.27; SMT (z3, cvc5) decides that both return the same for all inputs within the bounds, once with the real implementations and once with arbitrary ones in their place; counterexamples replayed natively", Bounds: []string{
		"cluster scanner with the wrapped implementation replaced by an arbitrary function of content and flag: every buffer of up to 5, and of 7, 16, 40 and 200 bytes, either flag, room after the buffer or not; buffers of up to 70,000 bytes that are fixed but for four bytes",
		"cluster scanner with the real implementations: every buffer of up to 3 (quick) or 4 (thorough) bytes, and texts of 2-4 characters",
		"sequence scanner: every buffer of up to 8 (quick) or 16 (thorough) bytes, and of up to 70,000 that are fixed but for four bytes",
		"TokenCount and AllTokens: every buffer of up to 3 (quick) or 4 (thorough) bytes with every split function that depends on the rest of the buffer and the flag, or on the number of calls; buffers of up to 3000 tokens, and of up to 200 KB with tokens of fixed sizes around the limits of bufio.Scanner",
		"Go 1.25 only in the thorough tier",
	}, Plan: func(r *Run) {
		for _, v := range []int{27, 26, 25} {
			h := hAuto[v]
			name := fmt.Sprintf("Go 1.%d", v)
			r.do(name, precise(v, "VerifScan", r.quick()))
			var js []*Job
			max, cmax := 8, 3
			if !r.quick() {
				max, cmax = 16, 4
			}
			for n := 0; n <= max; n++ {
				js = append(js, job(h, "VerifUTF8", "scan", "every buffer of n bytes", "n", n, "text", 0, "stub", 0))
			}
			for n := 0; n <= cmax; n++ {
				for s := 0; s <= 1; s++ {
					if n == 4 && s == 1 {
						continue
					}
					js = append(js, job(h, "VerifCount", "count", "every buffer of n bytes, every split function of the rest and the flag, or (state=1) of the number of calls", "n", n, "text", 0, "maxadv", 2, "state", s),
						job(h, "VerifAllTokens", "tokens", "every buffer of n bytes, every split function of the rest and the flag, or (state=1) of the number of calls", "n", n, "text", 0, "maxadv", 2, "state", s))
				}
			}
			for i, n := range []int{257, 1030, 4100, 33000, 70000} {
				j := job(h, "VerifUTF8", "scan", "buffers of n bytes, fixed but for four of them", "n", n, "text", -1-i%3, "stub", 0)
				j.LoopCap = 1 << 20
				js = append(js, j)
			}
			for _, b := range [][2]int{{300, 1}, {1030, 2}, {3000, 1}, {4095, 100}, {4096, 4096}, {4097, 4096}, {10000, 5000}, {65535, 65535}, {65536, 65535}, {65536, 65536}, {65537, 65536}, {70000, 66000}, {140000, 65000}, {200000, 60000}} {
				j := job(h, "VerifBig", "big", "n bytes in tokens of size bytes", "n", b[0], "size", b[1])
				j.LoopCap = 1 << 20
				js = append(js, j)
			}
			r.do(name, js)
			if !r.do(name+", arbitrary implementations", stubbed(h, "VerifScan")) && !r.stopped {
				r.reduce("%s: the scanner is not a mere call of the implementation: only short buffers with the real implementations were decided", name)
			}
			if v == 26 && r.quick() {
				break
			}
		}
	}})
}
