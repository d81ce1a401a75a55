package main

import (
	"reflect"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

// chain decides whether a tree is a well-formed chain, and gives its events.
func chain(root *testlang.Node) ([]testlang.Event, testlang.Event, bool) {
	var es []testlang.Event
	var f testlang.Event
	if root == nil || root.Event != nil || root.Outcome != testlang.OutcomeUnset || len(root.Tests) == 0 || len(root.Next) != 1 {
		return nil, f, false
	}
	n := &root.Next[0]
	for n.Outcome == testlang.OutcomeInc {
		if n.Event == nil || len(n.Tests) == 0 || len(n.Next) != 1 {
			return nil, f, false
		}
		es = append(es, *n.Event)
		n = &n.Next[0]
	}
	if n.Outcome != testlang.OutcomePass || n.Event == nil || len(n.Tests) == 0 || len(n.Next) != 1 {
		return nil, f, false
	}
	f = *n.Event
	n = &n.Next[0]
	if n.Outcome != testlang.OutcomeFail || n.Event != nil || len(n.Tests) == 0 || len(n.Next) != 0 {
		return nil, f, false
	}
	return es, f, true
}

func sameEvs(a trace.Trace, b []testlang.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func check(h *hl.H, n *testlang.Node) bool {
	h.Case("collapsing a test", hl.JS(n))
	es, f, ok := chain(n)
	got, err := trace.Collapse(n)
	if ok != (err == nil) {
		h.Fail("chain=%v, but got %#v and error %v", ok, got, err)
	}
	if ok && (!sameEvs(got.Prefix, es) || !reflect.DeepEqual(got.Forbid, f)) {
		h.Fail("got %v, want %v and %v", got, es, &f)
	}
	return ok
}

func main() {
	hl.Main("C04", func(h *hl.H) {
		check(h, nil)
		check(h, &testlang.Node{})
		for n := 0; n <= 40; n++ {
			f := trace.Forbidden{Prefix: hl.RealEvs(h.Evs(n)), Forbid: h.Ev().Real()}
			t := f.Expand("t")
			if !check(h, t) {
				h.Fail("the expansion of %v is not a chain", f)
			}
			got, err := trace.Collapse(t)
			if err != nil || !sameEvs(got.Prefix, f.Prefix) || !reflect.DeepEqual(got.Forbid, f.Forbid) {
				h.Fail("round trip of %v gives %v, %v", f, got, err)
			}
		}
		// all outcome sequences of short chains
		var rec func(outs []testlang.Outcome, n int)
		rec = func(outs []testlang.Outcome, n int) {
			var node *testlang.Node
			for i := len(outs) - 1; i >= 0; i-- {
				e := testlang.Event{}
				e = hl.MEv{Name: "c", V: hl.MVal{K: 1, I: int64(i)}}.Real()
				m := &testlang.Node{Tests: []string{"t"}, Outcome: outs[i], Event: &e}
				if outs[i] == testlang.OutcomeFail {
					m.Event = nil
				}
				if node != nil {
					m.Next = []testlang.Node{*node}
				}
				node = m
			}
			root := &testlang.Node{Tests: []string{"t"}}
			if node != nil {
				root.Next = []testlang.Node{*node}
			}
			check(h, root)
			if n > 0 {
				for o := testlang.Outcome(0); o < 4; o++ {
					rec(append(append([]testlang.Outcome{}, outs...), o), n-1)
				}
			}
		}
		rec(nil, 5)
		h.Rounds(300, 0.7, func(i int) {
			var t *testlang.Node
			if h.Intn(3) == 0 {
				t = h.Tree(12, h.Ev)
			} else {
				f := h.Forbidden()
				t = hl.Clone(f.Expand(h.Str()))
			}
			for k := h.Intn(3); k > 0; k-- {
				h.Mutate(t)
			}
			check(h, t)
		})
		h.Rounds(100, 1, func(int) {
			m := map[string]trace.Forbidden{}
			for i := h.Len() % 20; i > 0; i-- {
				m[h.Str()] = h.Forbidden()
			}
			s := trace.ExpandAll(m)
			bad := false
			for k := range s {
				if h.Intn(12) == 0 {
					h.Mutate(s[k])
				}
				_, _, ok := chain(s[k])
				bad = bad || !ok
			}
			h.Case("collapsing a suite", hl.JS(s))
			got, err := trace.CollapseAll(s)
			if bad != (err != nil) {
				h.Fail("bad=%v, error %v", bad, err)
			}
			if bad {
				return
			}
			if len(got) != len(s) {
				h.Fail("%d traces for %d tests", len(got), len(s))
			}
			for k := range s {
				es, f, _ := chain(s[k])
				if g, ok := got[k]; !ok || !sameEvs(g.Prefix, es) || !reflect.DeepEqual(g.Forbid, f) {
					h.Fail("test %q gives %v", k, got[k])
				}
			}
		})
	})
}
