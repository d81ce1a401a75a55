package main

import (
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func check(h *hl.H, n *testlang.Node) {
	h.Case("validating a test", hl.JS(n))
	before := hl.JS(n)
	ok := hl.WF(n)
	got, err := validate.Full(n)
	if ok != (err == nil) {
		h.Fail("well-formed=%v, but error is %v", ok, err)
	}
	if ok && (got == nil || got.Root() != n) {
		h.Fail("the validated test is not the test")
	}
	if !ok && got != nil {
		h.Fail("a validated test is returned besides error %v", err)
	}
	if hl.JS(n) != before {
		h.Fail("validation changed the test to %s", hl.JS(n))
	}
}

func main() {
	hl.Main("C05", func(h *hl.H) {
		check(h, nil)
		e := hl.MEv{Name: "c"}.Real()
		// every shape of a single node below a root, and one level further down
		for o := testlang.Outcome(0); o < 6; o++ {
			for ev := 0; ev < 2; ev++ {
				for ts := 0; ts < 3; ts++ {
					for nx := 0; nx < 4; nx++ {
						n := testlang.Node{Outcome: o}
						if ev == 1 {
							n.Event = &e
						}
						if ts > 0 {
							n.Tests = []string{"t", ""}[:ts]
						}
						for i := 0; i < nx; i++ {
							n.Next = append(n.Next, testlang.Node{Outcome: testlang.OutcomeFail, Tests: []string{"t"}})
						}
						c := hl.Clone(&n)
						check(h, c)
						p := testlang.Node{Outcome: testlang.OutcomePass, Tests: []string{"t"}, Event: &e, Next: []testlang.Node{{Outcome: testlang.OutcomeFail, Tests: []string{"t"}}}}
						for pos := 0; pos < 3; pos++ {
							r := &testlang.Node{Tests: []string{"t"}}
							for i := 0; i < 3; i++ {
								if i == pos {
									r.Next = append(r.Next, *c)
								} else {
									r.Next = append(r.Next, p)
								}
							}
							check(h, hl.Clone(r))
							check(h, hl.Clone(&testlang.Node{Tests: []string{"t"}, Next: []testlang.Node{
								{Outcome: testlang.OutcomeInc, Tests: []string{"t"}, Event: &e, Next: r.Next}}}))
							check(h, hl.Clone(&testlang.Node{Tests: []string{"t"}, Next: []testlang.Node{
								{Outcome: testlang.OutcomePass, Tests: []string{"t"}, Event: &e, Next: []testlang.Node{r.Next[pos]}}}}))
						}
					}
				}
			}
		}
		h.Rounds(300, 0.7, func(i int) {
			t := h.Tree(1+h.Intn(40), h.Ev)
			for k := h.Intn(3); k > 0; k-- {
				h.Mutate(t)
			}
			check(h, t)
		})
		// deep chains
		for _, n := range []int{100, 1000} {
			es := h.Evs(n)
			node := testlang.Node{Outcome: testlang.OutcomePass, Tests: []string{"t"}, Event: &e, Next: []testlang.Node{{Outcome: testlang.OutcomeFail, Tests: []string{"t"}}}}
			bad := node
			bad.Next = []testlang.Node{{Outcome: testlang.OutcomeFail}}
			for i := range es {
				ev := es[i].Real()
				node = testlang.Node{Outcome: testlang.OutcomeInc, Tests: []string{"t"}, Event: &ev, Next: []testlang.Node{node}}
				bad = testlang.Node{Outcome: testlang.OutcomeInc, Tests: []string{"t"}, Event: &ev, Next: []testlang.Node{bad}}
			}
			check(h, &testlang.Node{Tests: []string{"t"}, Next: []testlang.Node{node}})
			check(h, &testlang.Node{Tests: []string{"t"}, Next: []testlang.Node{bad}})
		}
		h.Rounds(100, 1, func(int) {
			s := testlang.Suite{}
			ok := true
			for i := h.Len() % 12; i > 0; i-- {
				k := h.Str()
				t := h.Tree(8, h.Ev)
				if h.Intn(12) == 0 {
					h.Mutate(t)
				}
				if h.Intn(60) == 0 {
					t = nil
				}
				s[k] = t
			}
			for _, t := range s {
				ok = ok && hl.WF(t)
			}
			h.Case("validating a suite", hl.JS(s))
			got, err := validate.FullSuite(s)
			if ok != (err == nil) {
				h.Fail("all well-formed=%v, but error is %v", ok, err)
			}
			if !ok {
				return
			}
			if len(got) != len(s) {
				h.Fail("%d validated tests for %d tests", len(got), len(s))
			}
			for k := range s {
				if got[k] == nil || got[k].Root() != s[k] {
					h.Fail("%q does not map to its test", k)
				}
			}
		})
	})
}
