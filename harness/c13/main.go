package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

// chans are the channels: name, kind, values.
var chans = []struct {
	name string
	kind channel.Kind
	vals []hl.MVal
}{
	{"alpha", channel.KindIn, ints(1, 2, 30)},
	{"beta", channel.KindIn, ints(-4, 0, 2147483647)},
	{"gammaRay", channel.KindIn, enums("On", "Off", "a.b")},
	{"delta", channel.KindOut, ints(0, 1, 2)},
	{"Eps", channel.KindOut, ints(-2147483647, -1, 5)},
	{"zeta_1", channel.KindOut, enums("Low", "Critical", "{|x=1|}")},
	{"etaTh", channel.KindCall, enums("go", "stop", "Go")},
	{"theta", channel.KindCall, ints(7, -7, 8)},
	{"iotaOut", channel.KindOut, ints(10, 11, 4294967295)},
}

func ints(is ...int64) (r []hl.MVal) {
	for _, i := range is {
		r = append(r, hl.MVal{K: 1, I: i})
	}
	return r
}

func enums(ss ...string) (r []hl.MVal) {
	for _, s := range ss {
		r = append(r, hl.MVal{K: 2, S: s})
	}
	return r
}

var ids = []string{"initial", "step1", "Ab", "q_2", "x9", "longStateName", "zz", "s10"}

// machine is a random machine of the class the property speaks about.
func machine(h *hl.H) *stm.Stm {
	m := &stm.Stm{Tests: structure.NewSet[string](), Types: stm.TypeMap{}}
	n := 1 + h.Intn(5)
	use := func(c int) {
		t := "nat"
		for _, v := range chans[c].vals {
			if v.K == 2 {
				t = "enum"
			} else if v.I < 0 && t == "nat" {
				t = "int"
			}
		}
		m.Types[chans[c].name] = hl.TypeOf(t)
	}
	perm := h.Perm(len(ids) - 1)
	id := func(i int) testlang.NodeID {
		if i == 0 {
			return "initial"
		}
		return testlang.NodeID(ids[1+perm[i-1]])
	}
	var tests []string
	for _, t := range []string{"t1", "test", "batt_Low"} {
		if h.Intn(3) > 0 {
			tests = append(tests, t)
			m.Tests.Add(t)
		}
	}
	for i := 0; i < n; i++ {
		s := stm.NewState(id(i))
		s.Verdict = &verdict.Verdict{}
		for _, t := range tests {
			o := []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomePass, testlang.OutcomeInc}[h.Intn(4)]
			if (i > 0 || h.Intn(3) == 0) && h.Intn(8) == 0 {
				o = testlang.OutcomeFail
			}
			if o != testlang.OutcomeUnset || h.Intn(2) == 0 {
				s.Verdict.Add(o, t)
			}
		}
		tr := func(c int, v hl.MVal) {
			use(c)
			e := hl.MEv{Name: chans[c].name, Kind: chans[c].kind, V: v}.Real()
			s.TransitionSets = transition.AddToSets(s.TransitionSets, e.Channel, transition.Transition{Value: e.Value, Next: id(h.Intn(n))})
		}
		switch h.Intn(5) {
		case 0, 1:
			c := h.Intn(3)
			tr(c, chans[c].vals[h.Intn(3)])
		case 2, 3, 4:
			for _, c := range h.Perm(6)[:h.Intn(4)] {
				for _, k := range h.Perm(3)[:1+h.Intn(3)] {
					tr(3+c, chans[3+c].vals[k])
				}
			}
		}
		m.States = append(m.States, s)
	}
	return m
}

// run is the specification: what the machine does on a list of steps.
type run struct {
	Input    []string
	Entered  []string
	Status   string
	Code     int
	Outcomes map[string]string
	Used     int
}

var statusText = map[string]string{"off": "an event happened that took the test off-script", "timeout": "the test ran out of time",
	"fail": "an unwanted behaviour occurred", "bug": "an internal error occurred"}
var outcomeText = map[testlang.Outcome]string{testlang.OutcomeUnset: "unset", testlang.OutcomeInc: "inconclusive",
	testlang.OutcomePass: "passed", testlang.OutcomeFail: "failed"}

func simulate(h *hl.H, m *stm.Stm, steps int) run {
	r := run{Outcomes: map[string]string{}}
	for _, t := range m.Tests.Values() {
		r.Outcomes[t] = "unset"
	}
	find := func(id testlang.NodeID) *stm.State {
		for _, s := range m.States {
			if s.ID == id {
				return s
			}
		}
		panic("harness: no such state")
	}
	kind := func(s *stm.State) string { // what the state waits for
		for _, ts := range s.TransitionSets {
			if ts.Channel.Kind == channel.KindIn {
				return "in"
			}
		}
		return "out"
	}
	cur, status := m.States[0], ""
	enter := func(s *stm.State) {
		cur = s
		r.Entered = append(r.Entered, string(s.ID))
		failed := false
		for t, o := range *s.Verdict {
			r.Outcomes[t] = outcomeText[o]
			failed = failed || o == testlang.OutcomeFail
		}
		status = kind(s)
		if failed {
			status = "fail"
		}
	}
	outs := map[string]int{}
	for _, s := range m.States {
		for _, ts := range s.TransitionSets {
			for i := range chans {
				if chans[i].name == ts.Channel.Name && ts.Channel.Kind != channel.KindIn {
					outs[ts.Channel.Name] = i
				}
			}
		}
	}
	var outNames []string
	for n := range outs {
		outNames = append(outNames, n)
	}
	sort.Strings(outNames)
	if kind(cur) == "in" {
		status = "start"
	} else {
		enter(cur)
	}
	running := func() bool { return status == "start" || status == "in" || status == "out" }
	for i := 0; i < steps && running(); i++ {
		choice := h.Intn(20)
		switch {
		case choice == 0:
			r.Input = append(r.Input, "timeout")
			status = "timeout"
		case choice == 1:
			r.Input = append(r.Input, "nonsense")
		case choice < 4 || status == "start":
			if h.Intn(4) == 0 && status == "start" && len(outNames) > 0 {
				n := outNames[h.Intn(len(outNames))]
				r.Input = append(r.Input, n, chans[outs[n]].vals[h.Intn(3)].Text())
				status = "off"
				break
			}
			r.Input = append(r.Input, "ready")
			if status == "start" {
				enter(cur)
			}
		case status == "in" && choice < 16:
			r.Input = append(r.Input, "accept")
			for _, ts := range cur.TransitionSets {
				if ts.Channel.Kind == channel.KindIn {
					enter(find(ts.Transitions[0].Next))
					break
				}
			}
		case status == "out" && choice < 5:
			r.Input = append(r.Input, "accept")
		default:
			if len(outNames) == 0 {
				continue
			}
			n := outNames[h.Intn(len(outNames))]
			v := chans[outs[n]].vals[h.Intn(3)].Text()
			// Prefer something the state expects.
			if h.Intn(5) > 0 && status == "out" && len(cur.TransitionSets) > 0 {
				ts := cur.TransitionSets[h.Intn(len(cur.TransitionSets))]
				n, v = ts.Channel.Name, ts.Transitions[h.Intn(len(ts.Transitions))].Value.StringValue()
			}
			r.Input = append(r.Input, n, v)
			status = "off"
			for _, ts := range cur.TransitionSets {
				if ts.Channel.Name != n || ts.Channel.Kind == channel.KindIn {
					continue
				}
				for _, t := range ts.Transitions {
					if t.Value.StringValue() == v {
						enter(find(t.Next))
						break
					}
				}
			}
		}
	}
	if running() {
		r.Input = append(r.Input, "timeout")
		status = "timeout"
	}
	r.Status = statusText[status]
	r.Code = map[string]int{"fail": 1, "bug": 2}[status]
	return r
}

var (
	reEnter = regexp.MustCompile(`Entered state (\S+)\.`)
	reEnd   = regexp.MustCompile(`(?m)finished: (.*)\.$`)
	reOut   = regexp.MustCompile(`(?m)^\[info\]   (\S+) = (\S+)$`)
)

func main() {
	hl.Main("C13", func(h *hl.H) {
		start := time.Now()
		batch, runs := 16, 40
		if h.Thorough {
			batch, runs = 48, 150
		}
		for b := 0; b == 0 || (h.More() && h.Left() > time.Since(start)/time.Duration(b)+time.Second); b++ {
			oneBatch(h, batch, runs)
			if h.Left() < 2*time.Second {
				break
			}
		}
	})
}

func oneBatch(h *hl.H, n, runs int) {
	suite := &stm.Suite{Types: stm.TypeMap{}, Tests: map[string]*stm.Stm{}}
	for i := 0; i < n; i++ {
		m := machine(h)
		suite.Tests[fmt.Sprintf("m%d", i)] = m
		for c, t := range m.Types {
			suite.Types[c] = t
		}
	}
	d := h.Dir("a", "b", "c")
	defer h.Drop(d)
	var js bytes.Buffer
	h.Case("generating C++ for machines", suite)
	if err := suite.Write(&js); err != nil {
		h.Fail("writing the suite failed: %v", err)
	}
	hl.Put(filepath.Join(d, "stms.json"), js.String())
	hl.Put(filepath.Join(d, "cfg", "config.xml"), `<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>`)
	h.Give(d)
	if o := hl.Exec(d, "", time.Minute, filepath.Join(h.Bin, "rtcg-gen"), "-output", "out", "cfg/config.xml", "stms.json"); o.Code != 0 {
		h.Fail("rtcg-gen failed with exit code %d: %s", o.Code, o.Stderr)
	}
	src := filepath.Join(d, "out", "animate", "src")
	type res struct{ what string }
	fails := make([]string, n)
	var plans [][]run
	for i := 0; i < n; i++ {
		var p []run
		for j := 0; j < runs; j++ {
			p = append(p, simulate(h, suite.Tests[fmt.Sprintf("m%d", i)], 1+h.Intn(10)))
		}
		plans = append(plans, p)
	}
	bin := filepath.Join(d, "bin")
	_ = os.MkdirAll(bin, 0o755)
	_ = os.Chmod(bin, 0o755)
	obj := filepath.Join(bin, "rtcg.o")
	if out, err := exec.Command("g++", "-std=c++11", "-O0", "-c", "-o", obj, "-I"+src+"/rtcg", src+"/rtcg/rtcg.cpp").CombinedOutput(); err != nil {
		h.Fail("the prelude does not compile: %s", out)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			name := fmt.Sprintf("m%d", i)
			exe := filepath.Join(bin, name)
			if out, err := exec.Command("g++", "-std=c++11", "-O0", "-o", exe, "-I"+src+"/"+name+"/include", "-I"+src+"/rtcg", "-I"+src+"/convert",
				src+"/"+name+"/src/main.cpp", obj).CombinedOutput(); err != nil {
				fails[i] = "the generated program does not compile: " + string(out)
				return
			}
			for _, r := range plans[i] {
				if fails[i] = check(d, exe, r); fails[i] != "" {
					return
				}
			}
		}(i)
	}
	wg.Wait()
	for i := 0; i < n; i++ {
		h.Case("running the generated program of a machine", map[string]any{"machine": suite.Tests[fmt.Sprintf("m%d", i)], "types": suite.Types})
		h.Cases["event sequences"] += len(plans[i])
		if fails[i] != "" {
			h.Fail("%s", fails[i])
		}
	}
	h.Done()
}

func check(dir, exe string, r run) string {
	o := hl.Exec(dir, strings.Join(r.Input, "\n")+"\n", 20*time.Second, exe)
	bad := func(f string, a ...any) string {
		e := o.Stderr
		if len(e) > 1500 {
			e = e[len(e)-1500:]
		}
		return fmt.Sprintf("on input %q: ", r.Input) + fmt.Sprintf(f, a...) + "; log: " + e
	}
	if o.Killed {
		return bad("the program does not end")
	}
	var entered []string
	for _, m := range reEnter.FindAllStringSubmatch(o.Stderr, -1) {
		entered = append(entered, m[1])
	}
	if fmt.Sprint(entered) != fmt.Sprint(r.Entered) {
		return bad("entered states %v, want %v", entered, r.Entered)
	}
	if o.Code != r.Code {
		return bad("exit code %d, want %d", o.Code, r.Code)
	}
	if m := reEnd.FindAllStringSubmatch(o.Stderr, -1); len(m) != 1 || m[0][1] != r.Status {
		return bad("finished with %q, want %q", m, r.Status)
	}
	got := map[string]string{}
	for _, m := range reOut.FindAllStringSubmatch(o.Stderr, -1) {
		got[m[1]] = m[2]
	}
	if fmt.Sprint(got) != fmt.Sprint(r.Outcomes) {
		return bad("outcomes %v, want %v", got, r.Outcomes)
	}
	return ""
}
