package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// manifest writes MANIFEST.json from the registered checks; properties
// without a check are listed with the reason given in not_applicable.txt.
func writeManifest() error {
	var cs []map[string]any
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		c := checks[id]
		cs = append(cs, map[string]any{"property": id, "quick_cmd": "./run.sh check " + id + " quick", "thorough_cmd": "./run.sh check " + id + " thorough",
			"technique": c.Technique, "level": "model_checking", "level_note": levelNote(c)})
	}
	var na []map[string]any
	b, _ := os.ReadFile(filepath.Join(verifDir, "not_applicable.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		id, why, ok := strings.Cut(l, " ")
		if ok && checks[id] == nil {
			na = append(na, map[string]any{"property": id, "reason": why})
		}
	}
	if na == nil {
		na = []map[string]any{}
	}
	m := map[string]any{"version": 1, "setup_cmd": "./run.sh version",
		"hooks":  map[string]any{"guard": "none", "enable": "no hooks: harnesses are laid over /repo with go build overlays", "source_commits": []string{}},
		"checks": cs, "not_applicable": na,
		"notes": "gosym/ is the symbolic executor for Go SSA, harness/ the harnesses, known_findings.txt the defects found. VERIF_TIER selects the depth when the command names none."}
	out, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(verifDir, "MANIFEST.json"), append(out, '\n'), 0o644)
}

func levelNote(c *Check) string {
	s := "Holds for every input within these bounds, decided by SMT: " + strings.Join(c.Bounds, "; ") + "."
	if len(c.Assume) > 0 {
		s += " Assumes " + strings.Join(c.Assume, "; ") + "."
	}
	if c.Note != "" {
		s += " " + c.Note
	}
	return s + " Trusts the SSA construction, the symbolic executor (checked by native replay of solver models on every run) and the solvers."
}
