package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Paths of the framework and the code under test.
var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

// goEnv is the environment of offline go commands.
func goEnv() []string {
	env := []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off"}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK":
		default:
			env = append(env, kv)
		}
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// HarnessResult is what one run of the bounded harness found.
type HarnessResult struct {
	Ran    bool
	OK     bool
	Note   string
	What   string
	Raw    map[string]any
	Cases  map[string]int
	Seed   int64
	Budget time.Duration
}

// harness is the built bounded harness of one property.
type harness struct {
	dir, bin, tools string
	err             error
}

func buildHarness(tmp, prop string) *harness {
	h := &harness{dir: tmp}
	pkg := strings.ToLower(prop)
	src := filepath.Join(verifDir, "harness")
	repl := map[string]string{}
	for _, d := range []string{"hlib", pkg} {
		fs, _ := filepath.Glob(filepath.Join(src, d, "*.go"))
		for _, f := range fs {
			repl[filepath.Join(repoDir, "internal/zzverif", d, filepath.Base(f))] = f
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	if h.err = os.WriteFile(ov, js, 0o644); h.err != nil {
		return h
	}
	h.bin = filepath.Join(tmp, "harness.bin")
	h.tools = filepath.Join(tmp, "bin")
	run := func(args ...string) error {
		c := exec.Command("go", args...)
		c.Dir, c.Env = repoDir, goEnv()
		if out, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("go %s: %w\n%s", strings.Join(args, " "), err, out)
		}
		return nil
	}
	if h.err = run("build", "-overlay", ov, "-o", h.bin, "./internal/zzverif/"+pkg); h.err != nil {
		return h
	}
	_ = os.Mkdir(h.tools, 0o755)
	h.err = run("build", "-o", h.tools+"/", "./cmd/...")
	return h
}

func (h *harness) run(seed int64, budget time.Duration, thorough bool) HarnessResult {
	r := HarnessResult{Seed: seed, Budget: budget}
	if h.err != nil {
		r.Note = "harness does not build against this tree: " + h.err.Error()
		return r
	}
	sc := filepath.Join(h.dir, fmt.Sprintf("s%d", time.Now().UnixNano()))
	defer os.RemoveAll(sc)
	out := filepath.Join(h.dir, "out.json")
	_ = os.Remove(out)
	args := []string{"-scratch", sc, "-bin", h.tools, "-repo", repoDir, "-out", out, "-seed", strconv.FormatInt(seed, 10), "-budget", budget.String()}
	if thorough {
		args = append(args, "-thorough")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*budget+150*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, h.bin, args...)
	c.Dir = h.dir
	outb, err := c.CombinedOutput()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	if bs, e := os.ReadFile(out); e == nil {
		_ = json.Unmarshal(bs, &r.Raw)
	}
	if m, ok := r.Raw["cases"].(map[string]any); ok {
		r.Cases = map[string]int{}
		for k, v := range m {
			if f, ok := v.(float64); ok {
				r.Cases[k] = int(f)
			}
		}
	}
	switch {
	case code == 0:
		r.Ran, r.OK = true, true
	case code == 1 && r.Raw != nil:
		r.Ran = true
		r.What, _ = r.Raw["what"].(string)
	case code == 2 && strings.Contains(string(outb), "goroutine "), code == -1 && ctx.Err() != nil:
		// A crash that Go cannot recover from (stack overflow, out of memory) or a hang while a case runs:
		// decided by running once more.
		r.Note = "harness crashed or hung: " + tail(string(outb), 3000)
	default:
		r.Note = fmt.Sprintf("harness trouble (exit %d): %s", code, tail(string(outb), 3000))
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "prove" {
		proveMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	fs.StringVar(&repoDir, "repo", repoDir, "code under test")
	fs.StringVar(&verifDir, "verif", verifDir, "framework")
	noProve := fs.Bool("noprove", false, "harness only (development)")
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: gover check PROPERTY [-tier quick|thorough] | gover prove ...")
		os.Exit(2)
	}
	prop := os.Args[2]
	_ = fs.Parse(os.Args[3:])
	os.Exit(check(prop, *tier, *noProve))
}

func check(prop, tier string, noProve bool) int {
	start := time.Now()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	_ = os.Chmod(tmp, 0o755)

	hch := make(chan *harness, 1)
	go func() { hch <- buildHarness(tmp, prop) }()
	var pr *ProofResult
	deadline = start.Add(620 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(520 * time.Second)
	}
	budget, thorough := 10*time.Second, false
	if tier == "thorough" {
		budget, thorough = 240*time.Second, true
	}
	var h *harness
	var runs []HarnessResult
	known := knownFindings(prop)
	findInput = func() bool { // when a proof fails: see at once whether an input shows it
		if len(runs) == 0 {
			h = <-hch
			r := h.run(seed, 10*time.Second, false)
			runs = append(runs, r)
		}
		r := runs[0]
		return r.Ran && !r.OK && known.match(r.What) == ""
	}
	if !noProve {
		pr = prove(prop, tier, tmp)
	}
	if h == nil {
		h = <-hch
	}
	var hr HarnessResult
	if len(runs) > 0 && (runs[0].Ran && !runs[0].OK || tier != "thorough") {
		hr = runs[0]
	} else {
		hr = h.run(seed, budget, thorough)
		runs = append(runs, hr)
	}
	if !hr.Ran && h.err == nil {
		hr = h.run(seed, budget, thorough)
		runs = append(runs, hr)
	}
	failed := pr.failedObligations()
	if len(failed) > 0 && hr.OK {
		// A proof failed: look longer for an input that shows it.
		for i := int64(1); i <= 3 && hr.OK; i++ {
			hr = h.run(seed+1000*i, 25*time.Second, i == 3)
			runs = append(runs, hr)
		}
	}
	violation, suffix := "", ""
	var details map[string]any
	switch {
	case hr.Ran && !hr.OK:
		if k := known.match(hr.What); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		} else {
			violation = "bounded replay on the real code: " + hr.What
			details = hr.Raw
		}
	}
	if len(failed) > 0 && violation == "" {
		violation = "obligation not discharged: " + failed[0].Name
		suffix = " no-failing-input-found"
	}
	if !hr.Ran && violation == "" && strings.HasPrefix(hr.Note, "harness crashed or hung") {
		violation = hr.Note
		details = hr.Raw
	}
	for _, k := range known.list {
		if hr.OK || hr.What == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	ev := evidence(prop, tier, seed, pr, runs, time.Since(start))
	if violation != "" {
		ev["violations"] = 1
	} else {
		ev["violations"] = 0
	}
	writeJSON(filepath.Join(verifDir, "evidence", prop+".json"), ev)
	if violation == "" {
		fmt.Printf("OK property=%s tier=%s %s; harness: %s (%.1fs)\n", prop, tier, pr.summary(), caseSummary(runs), time.Since(start).Seconds())
		return 0
	}
	replay := filepath.Join(verifDir, "evidence", "replay-"+prop+".json")
	rep := map[string]any{"property": prop, "violation": violation, "tier": tier, "seed": hr.Seed,
		"replay_cmd": fmt.Sprintf("bash /verif/harness/run1.sh %s -seed %d -budget %s", strings.ToLower(prop), hr.Seed, hr.Budget)}
	if details != nil {
		rep["failing_case"] = details
	}
	if len(failed) > 0 {
		var fo []map[string]any
		for _, o := range failed {
			fo = append(fo, map[string]any{"obligation": o.Name, "verifier": o.Detail})
		}
		rep["failed_obligations"] = fo
	}
	writeJSON(replay, rep)
	fmt.Println(violation)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
	return 1
}

func caseSummary(runs []HarnessResult) string {
	n := 0
	for _, r := range runs {
		for _, c := range r.Cases {
			n += c
		}
		if !r.Ran {
			return "not run: " + firstLine(r.Note)
		}
	}
	return fmt.Sprintf("%d cases", n)
}

func firstLine(s string) string { s, _, _ = strings.Cut(s, "\n"); return s }

func writeJSON(path string, v any) {
	bs, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		err = os.WriteFile(path, append(bs, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "writing", path, ":", err)
	}
}

type findings struct{ list []string }

func (f findings) match(what string) string {
	for _, k := range f.list {
		if id, _, ok := strings.Cut(k, ":"); ok && strings.Contains(what, id) {
			return k
		}
	}
	return ""
}

// knownFindings reads the findings recorded, not repaired, for prop.
func knownFindings(prop string) findings {
	var f findings
	bs, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(bs), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+prop+" "); ok {
			f.list = append(f.list, rest)
		}
	}
	return f
}

func evidence(prop, tier string, seed int64, pr *ProofResult, runs []HarnessResult, wall time.Duration) map[string]any {
	cov := map[string]any{}
	total := 0
	kinds := map[string]int{}
	for _, r := range runs {
		for k, c := range r.Cases {
			kinds[k] += c
			total += c
		}
	}
	bounded := map[string]any{"label": "bounded: randomised and small-scope execution of the real code against an independent reference; never counted as proved",
		"cases": kinds, "runs": len(runs)}
	if n := len(runs); n > 0 && !runs[n-1].Ran {
		bounded["note"] = runs[n-1].Note
	}
	level := "exploration"
	assumptions := []string{}
	if pr != nil && pr.Claimed {
		level = "proof"
		cov["obligations"] = pr.total()
		cov["discharged"] = pr.discharged()
		cov["checker_cmd"] = "bash /verif/check.sh " + prop + " " + tier + " (gover generates the obligations from /repo's current source; z3 5.3.2, then cvc5 1.1.2, discharge them)"
		cov["trusted_base"] = pr.trusted()
		cov["functions_under_contract"] = pr.functions()
		cov["backends"] = pr.backends()
		cov["solver_s"] = pr.solverTime()
		cov["vacuity_checks"] = pr.vacuity()
		if u := pr.unsupported(); len(u) > 0 {
			cov["outside_the_verifier_this_run"] = u
		}
		cov["bounded_part"] = bounded
		assumptions = append(assumptions, pr.assumptions()...)
	} else {
		cov["evaluations"] = total
		ks := make([]string, 0, len(kinds))
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		distinct := 0
		var samples []any
		for _, r := range runs {
			if d, ok := r.Raw["distinct"].(float64); ok {
				distinct += int(d)
			}
			if ss, ok := r.Raw["samples"].([]any); ok && samples == nil {
				samples = ss
			}
		}
		cov["distinct_nontrivial"] = distinct
		cov["samples"] = samples
		cov["rule"] = "each case is one generated or enumerated input (or history) executed on the real code and compared with an independent reference; distinct: different inputs by hash, counted up to 20000 per run, inputs whose text has at most 4 characters left out as trivial; kinds: " + strings.Join(ks, "; ")
		cov["bounded_part"] = bounded
	}
	return map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds()}
}
