package main

// Running the repository's table generator in a scratch copy.

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

const charpropsDir = "textseg/internal/charprops"

// copyRepo copies the working tree, but for version control data.
func copyRepo(dst string) error {
	return filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(repoDir, p)
		if err != nil {
			return err
		}
		if d.IsDir() {
			if d.Name() == ".git" {
				return fs.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

// regenerate runs go generate for the property tables in a fresh copy of the
// repository and returns the Go files of the package afterwards.
func regenerate(name string) (files map[string]string, out string, err error) {
	dst := filepath.Join(scratchDir(), name)
	if err := copyRepo(dst); err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dst)
	dir := filepath.Join(dst, charpropsDir)
	before, err := goFiles(dir)
	if err != nil {
		return nil, "", err
	}
	gb := newestGo()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, gb, "generate", ".")
	cmd.Dir = dir
	cmd.WaitDelay = 5 * time.Second
	for _, kv := range goEnv(gb) {
		if !strings.HasPrefix(kv, "GOWORK=") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	cmd.Env = append(cmd.Env, "GOWORK=off")
	o, err := cmd.CombinedOutput()
	if err != nil {
		return nil, string(o), fmt.Errorf("go generate: %v", err)
	}
	after, err := goFiles(dir)
	if err != nil {
		return nil, string(o), err
	}
	if len(after) < len(before) {
		return nil, string(o), fmt.Errorf("go generate removed files of the package")
	}
	return after, string(o), nil
}

// goFiles reads the files of the package in dir, without tests and commands.
func goFiles(dir string) (map[string]string, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if bytes.Contains(b, []byte("\npackage main\n")) || bytes.HasPrefix(b, []byte("package main\n")) {
			continue
		}
		m[filepath.Base(f)] = string(b)
	}
	return m, nil
}

// setupRegen puts the regenerated package beside the harness.
func setupRegen(h *Harness) error {
	fs, out, err := regenerate("regen-copy")
	if err != nil {
		return fmt.Errorf("%v: %s", err, tail(out, 400))
	}
	h.Extra = map[string]string{}
	for n, s := range fs {
		h.Extra["textseg/zverif/regentab/"+n] = s
	}
	return nil
}

// stdUnicode is the Unicode version of the standard library of a Go release,
// 0 if it is not known.
func stdUnicode(minor int) int {
	if gb := goBin(fmt.Sprintf("1.%d", minor)); gb != "" {
		f := filepath.Join(filepath.Dir(filepath.Dir(gb)), "src", "unicode", "tables.go")
		b, err := os.ReadFile(f)
		if err != nil {
			out, err := exec.Command(gb, "env", "GOROOT").Output()
			if err != nil {
				return 0
			}
			b, _ = os.ReadFile(filepath.Join(strings.TrimSpace(string(out)), "src", "unicode", "tables.go"))
		}
		if m := regexp.MustCompile(`(?m)^const Version = "(\d+)\.`).FindSubmatch(b); m != nil {
			n, _ := strconv.Atoi(string(m[1]))
			return n
		}
	}
	switch minor {
	case 21, 22: // not installed here; Go 1.21 release notes: Unicode 15.0.0
		return 15
	}
	return 0
}

func autoHarness(minor int) *Harness {
	return reg(&Harness{Name: fmt.Sprintf("auto1%d", minor), Dirs: []string{"auto"}, Mod: "autoversion", Rel: "textseg/zverif/auto", GoVer: fmt.Sprintf("1.%d", minor), Setup: func(h *Harness) error {
		h.Extra = map[string]string{"textseg/zverif/auto/std.go": fmt.Sprintf("package auto\n\n// major Unicode version of unicode.Version in this release\nconst stdMajor = %d\n", stdUnicode(minor))}
		return nil
	}})
}
