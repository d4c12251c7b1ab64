package main

// Loading of the code under test together with harness packages.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	ndPath string
	sizes  types.Sizes
	h      *Harness
	fnmu   sync.Mutex
	fns    map[string]*ssa.Function
}

var repoDir = "/repo"
var verifDir = "/verif"

func init() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if exe, err := os.Executable(); err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "harness")); err == nil {
			verifDir = d
		}
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
}

// Harness is one harness package laid over a module of the repository.
type Harness struct {
	Name     string   // directory under /verif/harness
	Mod      string   // module directory relative to the repository ("." or "autoversion")
	Rel      string   // package directory relative to the module
	InPkg    string   // package name when the files join an existing package
	GoVer    string   // "" = newest, or an older release such as "1.26"
	Dirs     []string // further directories whose files join the package
	Extra    map[string]string
	Setup    func(h *Harness) error // fills Extra
	dir      string                 // absolute module directory
	tmp      string
	env      []string
	modP     string
	raceBin  string
	bin      string
	binErr   error
	mu       sync.Mutex
	prepOnce sync.Once
	prepErr  error
	ovl      map[string]string // real path -> file holding the replacement
}

func goBin(ver string) string {
	for _, p := range []string{"/opt/veriftools/go" + ver + "/bin/go"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	ms, _ := filepath.Glob("/opt/veriftools/go" + ver + ".*/bin/go")
	sort.Strings(ms)
	if len(ms) > 0 {
		return ms[len(ms)-1]
	}
	if p, err := exec.LookPath("go" + ver); err == nil {
		return p
	}
	return ""
}

func newestGo() string {
	if p := goBin("1.27"); p != "" {
		return p
	}
	p, _ := exec.LookPath("go")
	return p
}

var scratch string
var loadMu sync.RWMutex
var scratchMu sync.Mutex

func scratchDir() string {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	if scratch == "" {
		d, err := os.MkdirTemp("", "gosym")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

func goEnv(gobin string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOTOOLCHAIN", "GOPROXY", "GOENV", "GO111MODULE", "CGO_ENABLED", "GOROOT", "PATH", "GOOS", "GOARCH", "GOEXPERIMENT":
			continue
		}
		env = append(env, kv)
	}
	has := func(k string) bool {
		for _, kv := range env {
			if strings.HasPrefix(kv, k+"=") {
				return true
			}
		}
		return false
	}
	if !has("HOME") {
		env = append(env, "HOME=/root")
	}
	if !has("GOCACHE") {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	if !has("GOMODCACHE") {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	work := filepath.Join(scratchDir(), "go.work")
	if _, err := os.Stat(work); err != nil {
		os.WriteFile(work, []byte(fmt.Sprintf("go 1.25\n\nuse (\n\t%s\n\t%s/autoversion\n)\n", repoDir, repoDir)), 0o644)
	}
	env = append(env, "GOFLAGS=", "GOWORK="+work, "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off", "GO111MODULE=on", "CGO_ENABLED=0",
		"PATH="+filepath.Dir(gobin)+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	return env
}

func modulePath(dir string) string {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	return ""
}

// prepare writes the overlay files to the scratch directory.
func (h *Harness) prepare() error {
	h.prepOnce.Do(func() { h.prepErr = h.prepare1() })
	return h.prepErr
}

func (h *Harness) prepare1() error {
	h.dir = filepath.Join(repoDir, h.Mod)
	h.modP = modulePath(h.dir)
	if h.modP == "" {
		return fmt.Errorf("no module at %s", h.dir)
	}
	if h.Setup != nil {
		if err := h.Setup(h); err != nil {
			return err
		}
	}
	h.tmp = filepath.Join(scratchDir(), h.Name)
	if err := os.MkdirAll(h.tmp, 0o755); err != nil {
		return err
	}
	h.ovl = map[string]string{}
	mainMod := modulePath(repoDir)
	put := func(realPath, name string, data []byte) error {
		s := strings.ReplaceAll(string(data), "VERIFND", h.modP+"/verifnd")
		s = strings.ReplaceAll(s, "MAINMOD", mainMod)
		s = strings.ReplaceAll(s, "THISMOD", h.modP)
		s = strings.ReplaceAll(s, "UNVERSIONED", path.Dir(mainMod))
		f := filepath.Join(h.tmp, name)
		h.ovl[realPath] = f
		return os.WriteFile(f, []byte(s), 0o644)
	}
	nds, _ := filepath.Glob(filepath.Join(verifDir, "harness", "nd", "*.go"))
	for _, f := range nds {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := put(filepath.Join(h.dir, "verifnd", filepath.Base(f)), "nd_"+filepath.Base(f), b); err != nil {
			return err
		}
	}
	var hs []string
	for _, d := range append([]string{h.Name}, h.Dirs...) {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		hs = append(hs, fs...)
	}
	if len(hs) == 0 {
		return fmt.Errorf("no harness files for %s", h.Name)
	}
	var names []string
	pkg := ""
	for _, f := range hs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkg = strings.TrimSpace(strings.TrimPrefix(l, "package "))
			}
			if strings.HasPrefix(l, "func Verif") && strings.Contains(l, "()") {
				n, _, _ := strings.Cut(strings.TrimPrefix(l, "func "), "(")
				names = append(names, n)
			}
		}
		if err := put(filepath.Join(h.dir, h.Rel, "zz_verif_"+filepath.Base(f)), "h_"+filepath.Base(f), b); err != nil {
			return err
		}
	}
	for n, src := range h.Extra {
		if err := put(filepath.Join(h.dir, n), "x_"+strings.ReplaceAll(n, "/", "_"), []byte(src)); err != nil {
			return err
		}
	}
	// the native replay test
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tnd \"VERIFND\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tnd.RunCases(map[string]func(){\n", pkg)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	return put(filepath.Join(h.dir, h.Rel, "zz_verif_replay_test.go"), "h_replay_test.go", []byte(sb.String()))
}

func (h *Harness) gobin() string {
	if h.GoVer != "" {
		return goBin(h.GoVer)
	}
	return newestGo()
}

// buildNative compiles the replay test binary.
func (h *Harness) buildNative(race bool) (string, error) {
	if err := h.prepare(); err != nil {
		return "", err
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if race && h.raceBin != "" {
		return h.raceBin, nil
	}
	if !race && (h.bin != "" || h.binErr != nil) {
		return h.bin, h.binErr
	}
	js, _ := json.Marshal(map[string]any{"Replace": h.ovl})
	ov := filepath.Join(h.tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(h.tmp, "replay.test")
	gb := h.gobin()
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./" + h.Rel}
	env := goEnv(gb)
	if race {
		bin = filepath.Join(h.tmp, "race.test")
		args = []string{"test", "-c", "-race", "-vet=off", "-overlay", ov, "-o", bin, "./" + h.Rel}
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command(gb, args...)
	cmd.Dir = h.dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if race {
		if err != nil {
			return "", fmt.Errorf("native build with -race: %v\n%s", err, out)
		}
		h.raceBin = bin
		return bin, nil
	}
	if err != nil {
		h.binErr = fmt.Errorf("native build of %s: %v\n%s", h.Name, err, out)
		return "", h.binErr
	}
	h.bin = bin
	return bin, nil
}

// load type-checks and builds SSA for the harness package and its imports.
func (h *Harness) load() (*Program, error) {
	if err := h.prepare(); err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for p, f := range h.ovl {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[p] = b
	}
	gb := h.gobin()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: h.dir, Overlay: ov, Env: goEnv(gb)}
	// the go command is looked up in the PATH of this process
	if h.GoVer == "" {
		loadMu.RLock()
		defer loadMu.RUnlock()
	} else {
		loadMu.Lock()
		defer loadMu.Unlock()
		old := os.Getenv("PATH")
		os.Setenv("PATH", filepath.Dir(gb)+":"+old)
		defer os.Setenv("PATH", old)
	}
	ps, err := packages.Load(cfg, "./"+h.Rel)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("loading %s: %s", h.Name, strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, ndPath: h.modP + "/verifnd", h: h, fns: map[string]*ssa.Function{}}
	for _, k := range prog.AllPackages() {
		p.pkgs[k.Pkg.Path()] = k
	}
	p.sizes = types.SizesFor("gc", "amd64")
	return p, nil
}

func (h *Harness) pkgPath() string {
	if h.Rel == "." {
		return h.modP
	}
	return h.modP + "/" + filepath.ToSlash(h.Rel)
}

func (p *Program) isND(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == p.ndPath
}

// fn finds a function by "import/path.Name" or a method by
// "(import/path.Type).Name" / "(*import/path.Type).Name".
func (p *Program) fn(name string) *ssa.Function {
	p.fnmu.Lock()
	defer p.fnmu.Unlock()
	if f, ok := p.fns[name]; ok {
		return f
	}
	var res *ssa.Function
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		recv := name[1:i]
		meth := name[i+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		j := strings.LastIndex(recv, ".")
		if k := p.pkgs[recv[:j]]; k != nil {
			if t, ok := k.Members[recv[j+1:]].(*ssa.Type); ok {
				var rt types.Type = t.Type()
				if ptr {
					rt = types.NewPointer(rt)
				}
				if sel := p.prog.MethodSets.MethodSet(rt).Lookup(k.Pkg, meth); sel != nil {
					res = p.prog.MethodValue(sel)
				}
			}
		}
	} else {
		j := strings.LastIndex(name, ".")
		if k := p.pkgs[name[:j]]; k != nil {
			res = k.Func(name[j+1:])
		}
	}
	p.fns[name] = res
	return res
}
