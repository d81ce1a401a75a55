package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// Hints say what an earlier run learnt about a function: the invariant candidates that do not hold, and
// the solver that discharged an obligation. They only save time: a candidate left out is not assumed,
// every obligation is still discharged on every run, and a function that fails with hints is redone without.
type hint struct {
	Dead []string          `json:"dead,omitempty"`
	Via  map[string]string `json:"via,omitempty"`
	dead map[string]bool
}

var (
	hints    = map[string]*hint{}
	useHints = true
	deadline time.Time // solvers do not start after it
)

func hintsPath() string { return filepath.Join(verifDir, "gover", "hints.json") }

func loadHints() {
	bs, err := os.ReadFile(hintsPath())
	if err != nil || !useHints {
		return
	}
	if json.Unmarshal(bs, &hints) != nil {
		hints = map[string]*hint{}
	}
	for _, h := range hints {
		h.dead = map[string]bool{}
		for _, d := range h.Dead {
			h.dead[d] = true
		}
	}
}

func saveHints() {
	bs, err := json.MarshalIndent(hints, "", " ")
	if err == nil {
		err = os.WriteFile(hintsPath(), append(bs, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("hints:", err)
	}
}

func hintKey(c *Contract) string { return c.File + " " + c.Name }

// nameObls gives candidates and obligations the names hints use.
func (ex *Exec) nameObls() {
	n := map[string]int{}
	for _, o := range ex.obls {
		k := o.Kind + " " + o.Name
		o.key = fmt.Sprintf("%s#%d", k, n[k])
		n[k]++
	}
	ex.tagKey = map[*Term]string{}
	m := map[string]int{}
	for i := 0; i < len(ex.tags); i++ {
		t := Var(fmt.Sprintf("tag!%d", i), "Bool")
		name, ok := ex.tagName[t]
		if !ok {
			continue
		}
		ex.tagKey[t] = fmt.Sprintf("%s#%d", name, m[name])
		m[name]++
	}
}

// learn records the outcome of a run.
func (ex *Exec) learn(dead map[*Term]bool) *hint {
	h := &hint{Via: map[string]string{}, dead: map[string]bool{}}
	for t := range dead {
		k := ex.tagKey[t]
		h.Dead = append(h.Dead, k)
		h.dead[k] = true
	}
	sort.Strings(h.Dead)
	for _, o := range ex.obls {
		if o.Status == "discharged" && o.Backend != "simplifier" && o.Backend != "z3s" && (o.cand == nil || !dead[o.cand]) {
			h.Via[o.key] = o.Backend
		}
	}
	return h
}
