package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func sameNode(a, b *testlang.Node) string {
	if (a == nil) != (b == nil) {
		return "a missing node"
	}
	if a == nil {
		return ""
	}
	if a.ID != b.ID || a.Outcome != b.Outcome || len(a.Tests) != len(b.Tests) || (len(a.Tests) > 0 && !reflect.DeepEqual(a.Tests, b.Tests)) {
		return fmt.Sprintf("node %q %v %v became %q %v %v", a.ID, a.Outcome, a.Tests, b.ID, b.Outcome, b.Tests)
	}
	if !reflect.DeepEqual(a.Event, b.Event) {
		return fmt.Sprintf("event %v became %v", a.Event, b.Event)
	}
	if len(a.Next) != len(b.Next) {
		return fmt.Sprintf("%d continuations became %d", len(a.Next), len(b.Next))
	}
	for i := range a.Next {
		if s := sameNode(&a.Next[i], &b.Next[i]); s != "" {
			return s
		}
	}
	return ""
}

func sameStm(a, b *stm.Stm) string {
	if b == nil {
		return "a missing machine"
	}
	if len(a.States) != len(b.States) {
		return fmt.Sprintf("%d states became %d", len(a.States), len(b.States))
	}
	for i, s := range a.States {
		t := b.States[i]
		if s.ID != t.ID || len(s.TransitionSets) != len(t.TransitionSets) {
			return fmt.Sprintf("state %v became %v", s, t)
		}
		for j := range s.TransitionSets {
			x, y := s.TransitionSets[j], t.TransitionSets[j]
			if x.Channel != y.Channel || len(x.Transitions) != len(y.Transitions) {
				return fmt.Sprintf("set %v became %v", x, y)
			}
			for k := range x.Transitions {
				if !reflect.DeepEqual(x.Transitions[k], y.Transitions[k]) {
					return fmt.Sprintf("transition %#v became %#v", x.Transitions[k], y.Transitions[k])
				}
			}
		}
		if t.Verdict == nil || len(*s.Verdict) != len(*t.Verdict) {
			return fmt.Sprintf("verdicts of %q became %v", s.ID, t.Verdict)
		}
		for k, o := range *s.Verdict {
			if p, ok := (*t.Verdict)[k]; !ok || p != o {
				return fmt.Sprintf("verdict %v of %q became %v", o, k, p)
			}
		}
	}
	x, y := append([]string{}, a.Tests.Values()...), append([]string{}, b.Tests.Values()...)
	sort.Strings(x)
	sort.Strings(y)
	if len(x) != len(y) || (len(x) > 0 && !reflect.DeepEqual(x, y)) {
		return fmt.Sprintf("tests %q became %q", x, y)
	}
	return sameTypes(a.Types, b.Types)
}

func sameTypes(a, b stm.TypeMap) string {
	if len(a) != len(b) {
		return fmt.Sprintf("types %v became %v", a, b)
	}
	for k := range a {
		if !reflect.DeepEqual(a[k], b[k]) {
			return fmt.Sprintf("type %v of %q became %v", a[k], k, b[k])
		}
	}
	return ""
}

func tests(h *hl.H, s testlang.Suite) testlang.Suite {
	h.Case("writing and reading a test suite", hl.JS(s))
	var buf bytes.Buffer
	if err := s.Write(&buf); err != nil {
		h.Fail("cannot be written: %v", err)
	}
	text := buf.String()
	got, err := testlang.ReadSuite(&buf)
	if err != nil {
		h.Fail("cannot be read back: %v; text %s", err, text)
	}
	if len(got) != len(s) {
		h.Fail("%d tests became %d; text %s", len(s), len(got), text)
	}
	for k := range s {
		if _, ok := got[k]; !ok {
			h.Fail("test %q was lost", k)
		}
		if bad := sameNode(s[k], got[k]); bad != "" {
			h.Fail("test %q: %s; text %s", k, bad, text)
		}
	}
	return got
}

func machines(h *hl.H, s testlang.Suite) {
	h.Case("building machines", hl.JS(s))
	v, err := validate.FullSuite(s)
	if err != nil {
		return
	}
	var b stm.Builder
	st, err := b.BuildSuite(v)
	if err != nil {
		return
	}
	h.Case("writing and reading a machine suite", hl.JS(s))
	var buf bytes.Buffer
	if err := st.Write(&buf); err != nil {
		h.Fail("cannot be written: %v", err)
	}
	text := buf.String()
	got, err := stm.ReadSuite(&buf)
	if err != nil {
		h.Fail("cannot be read back: %v; text %s", err, text)
	}
	if bad := sameTypes(st.Types, got.Types); bad != "" {
		h.Fail("%s; text %s", bad, text)
	}
	if len(got.Tests) != len(st.Tests) {
		h.Fail("%d machines became %d", len(st.Tests), len(got.Tests))
	}
	for k := range st.Tests {
		if bad := sameStm(st.Tests[k], got.Tests[k]); bad != "" {
			h.Fail("machine %q: %s; text %s", k, bad, text)
		}
	}
}

func main() {
	hl.Main("C20", func(h *hl.H) {
		rejT := []string{"", "[]", "1", `"x"`, "{", `{"t":1}`, `{"t":{"tests":1}}`, `{"t":{"outcome":"nope"}}`, `{"t":{"outcome":1}}`, `{"t":{"event":"x"}}`, `{"t":{"event":".in"}}`, `{"t":{"event":"a.foo"}}`,
			`{"t":{"next":{}}}`, `{"t":{"next":[1]}}`, `{"t":{"next":[{"outcome":"x"}]}}`, `{"t":{"id":1}}`, `{"t":{"tests":["a",1]}}`, `{"t":{}`, `{"t":{"next":[{"next":[{"event":"bad"}]}]}}`}
		for _, s := range rejT {
			h.Case("reading a bad test suite", s)
			if got, err := testlang.ReadSuite(strings.NewReader(s)); err == nil {
				h.Fail("accepted as %v", got)
			} else if got != nil {
				h.Fail("returned %v besides the error", got)
			}
		}
		rejS := []string{"", "[]", "1", "{", `{"tests":1}`, `{"tests":{"t":null}}`, `{"tests":{"t":{"states":[null]}}}`, `{"types":{"a":"nope"}}`, `{"types":{"a":1}}`, `{"tests":{"t":{"states":[{"verdicts":{"t":"nope"}}]}}}`,
			`{"tests":{"t":{"tests":[1]}}}`, `{"tests":{"t":{"types":{"a":"x"}}}}`, `{"tests":{"t":{"states":[{"transitionSets":[{"channel":"x"}]}]}}}`, `{"tests":{"t":{"states":[{"transitionSets":[{"channel":"a.foo"}]}]}}}`,
			`{"tests":{"t":{"states":[{"verdicts":["a"]}]}}}`, `{"tests":{"t":{"tests":{"a":true}}}}`, `{"tests":{"a":{"states":[]},"t":null}}`, `{"tests":{"t":{"states":[{"id":"initial"},null]}}}`}
		for _, s := range rejS {
			h.Case("reading a bad machine suite", s)
			if got, err := stm.ReadSuite(strings.NewReader(s)); err == nil {
				h.Fail("accepted as %v", got)
			}
		}
		tests(h, testlang.Suite{})
		h.Rounds(200, 0.6, func(int) {
			s := testlang.Suite{}
			ev := h.TypedEv(false)
			for i := h.Intn(5); i > 0; i-- {
				t := h.Tree(1+h.Intn(20), ev)
				if h.Intn(4) == 0 {
					for _, n := range hl.Pre(t) {
						n.ID = testlang.NodeID(h.Str())
					}
				}
				s[h.Str()] = t
			}
			back := tests(h, s)
			_ = back
			for _, t := range s { // machines come from trees without identifiers here
				for _, n := range hl.Pre(t) {
					n.ID = ""
				}
			}
			machines(h, s)
		})
		h.Rounds(100, 1, func(int) {
			var l []trace.Forbidden
			ev := h.TypedEv(false)
			for i := h.Intn(5); i > 0; i-- {
				n := h.Len()
				var es []hl.MEv
				for ; n > 0; n-- {
					es = append(es, ev())
				}
				l = append(l, trace.Forbidden{Name: h.Str(), Prefix: hl.RealEvs(es), Forbid: ev().Real()})
			}
			machines(h, tests(h, trace.ExpandAll(trace.Name(l))))
		})
	})
}
