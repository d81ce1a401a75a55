package main

import (
	"fmt"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func main() {
	hl.Main("C07", func(h *hl.H) { run(h, func(r *testlang.Node, m *stm.Stm) string { return hl.Shape(r, m, true) }) })
}

func run(h *hl.H, judge func(*testlang.Node, *stm.Stm) string) {
	h.Rounds(300, 0.5, func(i int) {
		var b stm.Builder
		type built struct {
			t *testlang.Node
			m stm.Stm
		}
		var all []built
		for k := 1 + h.Intn(4); k > 0; k-- {
			bad := h.Intn(10) == 0
			t := h.Tree(1+h.Intn(40), h.TypedEv(bad))
			if len(all) > 0 && h.Intn(5) == 0 {
				t = all[h.Intn(len(all))].t // build the same test again
			}
			_, ok := hl.WantTypes(t)
			h.Case("building a machine", hl.JS(t))
			v, err := validate.Full(t)
			if err != nil {
				h.Fail("a valid test is refused: %v", err)
			}
			m, err := b.Build(v)
			if ok != (err == nil) {
				h.Fail("types agree=%v, error %v", ok, err)
			}
			if ok {
				if s := judge(t, &m); s != "" {
					h.Fail("%s; machine is %v", s, m.States)
				}
				all = append(all, built{t, m})
			}
		}
		h.Case("building several machines with one builder", fmt.Sprint(len(all)))
		for _, x := range all {
			x := x
			if s := judge(x.t, &x.m); s != "" {
				h.Case("building several machines with one builder", hl.JS(x.t))
				h.Fail("a later build changed an earlier machine: %s", s)
			}
		}
	})
	h.Rounds(100, 1, func(int) {
		ev := h.TypedEv(false)
		s := testlang.Suite{}
		for i := 1 + h.Intn(6); i > 0; i-- {
			s[fmt.Sprintf("t%d", i)] = h.Tree(1+h.Intn(16), ev)
		}
		h.Case("building a suite", hl.JS(s))
		v, err := validate.FullSuite(s)
		if err != nil {
			h.Fail("valid suite refused: %v", err)
		}
		var b stm.Builder
		got, err := b.BuildSuite(v)
		if err != nil {
			h.Fail("error %v", err)
		}
		if len(got.Tests) != len(s) {
			h.Fail("%d machines for %d tests", len(got.Tests), len(s))
		}
		for k := range s {
			if got.Tests[k] == nil {
				h.Fail("no machine for %q", k)
			}
			if bad := judge(s[k], got.Tests[k]); bad != "" {
				h.Fail("test %q: %s", k, bad)
			}
		}
	})
}
