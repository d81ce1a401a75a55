package main

import (
	"reflect"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

type tst struct {
	Pre []hl.MEv
	F   hl.MEv
}

func eqs(a, b []hl.MEv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func point(n *testlang.Node, t string, e testlang.Event) bool {
	return n.ID == "" && n.Outcome == testlang.OutcomePass && n.Event != nil && reflect.DeepEqual(*n.Event, e) && reflect.DeepEqual(n.Tests, []string{t}) &&
		len(n.Next) == 1 && n.Next[0].Outcome == testlang.OutcomeFail && n.Next[0].Event == nil && len(n.Next[0].Next) == 0 && reflect.DeepEqual(n.Next[0].Tests, []string{t})
}

func check(h *hl.H, ts map[string]tst, after []hl.MEv) {
	h.Case("factorising", map[string]any{"tests": ts, "after": after})
	m := map[string]trace.Forbidden{}
	want := map[string]testlang.Event{}
	for k, t := range ts {
		m[k] = trace.Forbidden{Name: "own", Prefix: hl.RealEvs(t.Pre), Forbid: t.F.Real()}
		if eqs(t.Pre, after) {
			want[k] = t.F.Real()
		}
	}
	fs := factorise.Failures(m, hl.RealEvs(after))
	if len(fs) != len(want) {
		h.Fail("%d failures, want %d", len(fs), len(want))
	}
	seen := map[string]bool{}
	for _, f := range fs {
		w, ok := want[f.Test]
		if !ok || seen[f.Test] || !reflect.DeepEqual(w, f.Event) {
			h.Fail("unexpected failure of %q on %v", f.Test, &f.Event)
		}
		seen[f.Test] = true
		n := f.Node()
		if !point(&n, f.Test, f.Event) {
			h.Fail("failure node is %s", hl.JS(n))
		}
	}
	spine := factorise.SpineNodes(m, hl.RealEvs(after))
	var last testlang.Event
	if len(after) > 0 {
		last = after[len(after)-1].Real()
	}
	seen = map[string]bool{}
	ins := 0
	for k := range want {
		e := want[k]
		if e.Channel.Kind == channel.KindIn {
			ins++
		}
	}
	if len(spine) != ins+1 {
		h.Fail("%d spine nodes, want %d", len(spine), ins+1)
	}
	rest := -1
	for i := range spine {
		s := &spine[i]
		if s.Outcome != testlang.OutcomeInc || s.Event == nil || !reflect.DeepEqual(*s.Event, last) {
			h.Fail("spine node %d is %s", i, hl.JS(s))
		}
		in := len(s.Next) == 1 && s.Next[0].Event != nil && s.Next[0].Event.Channel.Kind == channel.KindIn
		if !in {
			if rest >= 0 {
				h.Fail("two spine nodes without an input failure")
			}
			rest = i
		}
		for j := range s.Next {
			f := &s.Next[j]
			if len(f.Tests) != 1 {
				h.Fail("failure of spine node %d is tagged %v", i, f.Tests)
			}
			t := f.Tests[0]
			e, ok := want[t]
			if !ok || seen[t] || !point(f, t, e) || (e.Channel.Kind == channel.KindIn) != in {
				h.Fail("spine node %d holds unexpected failure %s", i, hl.JS(f))
			}
			seen[t] = true
		}
	}
	if len(seen) != len(want) || rest < 0 {
		h.Fail("%d failures in the spine, want %d", len(seen), len(want))
	}
	if len(spine) > 0 && rest != len(spine)-1 {
		_ = rest // the position of the merged node is not part of the property
	}
}

func main() {
	hl.Main("C18", func(h *hl.H) {
		check(h, nil, nil)
		h.Rounds(500, 1, func(int) {
			pool := h.Evs(1 + h.Intn(3))
			tr := func() []hl.MEv {
				n := h.Intn(4)
				if h.Intn(12) == 0 {
					n = h.Intn(20)
				}
				es := make([]hl.MEv, n)
				for i := range es {
					es[i] = pool[h.Intn(len(pool))]
				}
				return es
			}
			after := tr()
			ts := map[string]tst{}
			for i := h.Len() % 24; i > 0; i-- {
				p := tr()
				if h.Intn(2) == 0 {
					p = after
				}
				f := h.Ev()
				if h.Intn(3) == 0 {
					f = pool[0]
				}
				ts[h.Str()] = tst{p, f}
			}
			check(h, ts, after)
		})
	})
}
