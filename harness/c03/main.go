package main

import (
	"reflect"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func want(es []hl.MEv, f hl.MEv, name string) testlang.Node {
	fe := f.Real()
	n := testlang.Node{Tests: []string{name}, Outcome: testlang.OutcomePass, Event: &fe,
		Next: []testlang.Node{{Tests: []string{name}, Outcome: testlang.OutcomeFail}}}
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i].Real()
		n = testlang.Node{Tests: []string{name}, Outcome: testlang.OutcomeInc, Event: &e, Next: []testlang.Node{n}}
	}
	return testlang.Node{Tests: []string{name}, Next: []testlang.Node{n}}
}

// same compares trees, counting nil and empty continuation lists as equal.
func same(a, b *testlang.Node) bool {
	if a.ID != b.ID || a.Outcome != b.Outcome || !reflect.DeepEqual(a.Tests, b.Tests) || !reflect.DeepEqual(a.Event, b.Event) || len(a.Next) != len(b.Next) {
		return false
	}
	for i := range a.Next {
		if !same(&a.Next[i], &b.Next[i]) {
			return false
		}
	}
	return true
}

func main() {
	hl.Main("C03", func(h *hl.H) {
		one := func(es []hl.MEv, f hl.MEv, name string) {
			fb := trace.Forbidden{Name: h.Str(), Prefix: hl.RealEvs(es), Forbid: f.Real()}
			h.Case("expanding a trace", map[string]any{"prefix": es, "forbid": f, "name": name})
			got := fb.Expand(name)
			w := want(es, f, name)
			if got == nil || !same(got, &w) {
				h.Fail("got %s, want %s", hl.JS(got), hl.JS(w))
			}
			if !reflect.DeepEqual(fb.Prefix, hl.RealEvs(es)) || !reflect.DeepEqual(fb.Forbid, f.Real()) {
				h.Fail("the trace itself was changed")
			}
			if _, err := validate.Full(got); err != nil {
				h.Fail("the tree does not validate: %v", err)
			}
			// expanding the same trace again must not disturb the first tree
			other := fb.Expand(name + "x")
			if !same(got, &w) {
				h.Fail("expanding again changed the first tree to %s", hl.JS(got))
			}
			w2 := want(es, f, name+"x")
			if !same(other, &w2) {
				h.Fail("second expansion is %s, want %s", hl.JS(other), hl.JS(w2))
			}
		}
		for n := 0; n <= 40; n++ {
			one(h.Evs(n), h.Ev(), "t")
		}
		one(nil, h.Ev(), "")
		h.Rounds(200, 0.5, func(int) { one(h.Evs(h.Len()), h.Ev(), h.Str()) })
		h.Rounds(100, 1, func(int) {
			m := map[string]trace.Forbidden{}
			w := map[string]testlang.Node{}
			for i := h.Len() % 20; i > 0; i-- {
				k := h.Str()
				es, f := h.Evs(h.Len()), h.Ev()
				m[k] = trace.Forbidden{Name: h.Str(), Prefix: hl.RealEvs(es), Forbid: f.Real()}
				w[k] = want(es, f, k)
			}
			h.Case("expanding a suite", m)
			got := trace.ExpandAll(m)
			if len(got) != len(w) {
				h.Fail("%d tests for %d traces", len(got), len(w))
			}
			for k := range w {
				wk := w[k]
				if got[k] == nil || !same(got[k], &wk) {
					h.Fail("test %q is %s, want %s", k, hl.JS(got[k]), hl.JS(wk))
				}
			}
		})
	})
}
