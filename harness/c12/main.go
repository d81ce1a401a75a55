package main

import (
	"reflect"

	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

type agg struct {
	c channel.Channel
	m map[testlang.NodeID][]transition.Transition
}

func same(a map[testlang.NodeID][]transition.Transition, b transition.StateMap) bool {
	for k, v := range a {
		if len(v) != len(b[k]) {
			return false
		}
		for i := range v {
			if !reflect.DeepEqual(v[i], b[k][i]) {
				return false
			}
		}
	}
	for k, v := range b {
		if len(v) > 0 && len(a[k]) == 0 {
			return false
		}
	}
	return true
}

// bag compares per state as multisets: nothing is said about the order of merged inputs.
func bag(a map[testlang.NodeID][]transition.Transition, b transition.StateMap) bool {
	cnt := func(m map[testlang.NodeID][]transition.Transition) map[string]int {
		r := map[string]int{}
		for k, v := range m {
			for _, t := range v {
				r[string(k)+"|"+string(t.Next)+"|"+t.Value.String()+"|"+t.Value.StringValue()]++
			}
		}
		return r
	}
	return reflect.DeepEqual(cnt(a), cnt(b))
}

func sameAggs(w []agg, g []transition.AggregateSet) bool {
	if len(w) != len(g) {
		return false
	}
	for i := range w {
		if w[i].c != g[i].Channel || !same(w[i].m, g[i].States) {
			return false
		}
	}
	return true
}

func check(h *hl.H, m *stm.Stm) {
	h.Case("viewing a machine", hl.JS(m.States))
	before := hl.JS(m.States)
	var all, in, out []agg
	var chans []channel.Channel
	merged := map[testlang.NodeID][]transition.Transition{}
	for _, s := range m.States {
		for _, ts := range s.TransitionSets {
			i := 0
			for i < len(all) && all[i].c != ts.Channel {
				i++
			}
			if i == len(all) {
				all = append(all, agg{ts.Channel, map[testlang.NodeID][]transition.Transition{}})
				chans = append(chans, ts.Channel)
			}
			all[i].m[s.ID] = append(all[i].m[s.ID], ts.Transitions...)
		}
	}
	for _, a := range all {
		if a.c.Kind == channel.KindIn {
			in = append(in, a)
			for k, v := range a.m {
				merged[k] = append(merged[k], v...)
			}
		} else {
			out = append(out, a)
		}
	}
	first := false
	if len(m.States) > 0 {
		for _, ts := range m.States[0].TransitionSets {
			first = first || ts.Channel.Kind == channel.KindIn
		}
	}
	got := m.TransitionSets()
	if !sameAggs(all, got) {
		h.Fail("aggregates are %v, want %v", got, all)
	}
	ctx := gencommon.NewContext("name", m)
	t := ctx.Transitions
	if ctx.Name != "name" || ctx.Stm != m {
		h.Fail("the context has the wrong name or machine")
	}
	if !sameAggs(all, t.All) {
		h.Fail("All is %v, want %v", t.All, all)
	}
	if !sameAggs(in, t.In) {
		h.Fail("In is %v, want %v", t.In, in)
	}
	if !sameAggs(out, t.Out) {
		h.Fail("Out is %v, want %v", t.Out, out)
	}
	if len(chans) != len(t.Channels) || (len(chans) > 0 && !reflect.DeepEqual(chans, t.Channels)) {
		h.Fail("Channels is %v, want %v", t.Channels, chans)
	}
	if !bag(merged, t.InMerged) {
		h.Fail("InMerged is %v, want %v", t.InMerged, merged)
	}
	if t.HasIn != (len(in) > 0) || t.FirstStateHasIn != first {
		h.Fail("HasIn=%v FirstStateHasIn=%v, want %v %v", t.HasIn, t.FirstStateHasIn, len(in) > 0, first)
	}
	for _, s := range m.States {
		has := false
		var flat *transition.Flat
		for _, ts := range s.TransitionSets {
			if ts.Channel.Kind == channel.KindIn {
				has = true
				if flat == nil && len(ts.Transitions) == 1 {
					flat = &transition.Flat{Transition: ts.Transitions[0], Channel: ts.Channel}
				}
			}
		}
		if s.HasIn() != has || !reflect.DeepEqual(s.In(), flat) {
			h.Fail("state %q: HasIn=%v In=%v, want %v %v", s.ID, s.HasIn(), s.In(), has, flat)
		}
	}
	if hl.JS(m.States) != before {
		h.Fail("the machine was changed to %s", hl.JS(m.States))
	}
	again := gencommon.NewContext("name", m).Transitions
	if !sameAggs(all, again.All) || !bag(merged, again.InMerged) || !sameAggs(all, t.All) || !bag(merged, t.InMerged) {
		h.Fail("viewing the machine again gives something else")
	}
}

func main() {
	hl.Main("C12", func(h *hl.H) {
		check(h, &stm.Stm{})
		h.Rounds(500, 1, func(int) { check(h, h.Machine()) })
	})
}
