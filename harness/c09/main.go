package main

import (
	"fmt"
	"reflect"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func main() {
	hl.Main("C09", func(h *hl.H) {
		ts := []string{"", "()", "enum", "nat", "int", "real"}
		for _, a := range ts {
			for _, b := range ts {
				h.Case("unifying types", []string{a, b})
				ta, tb := hl.TypeOf(a), hl.TypeOf(b)
				w, ok := hl.Join(a, b)
				got, err := rstype.Unify(ta, tb)
				if ok != (err == nil) {
					h.Fail("related=%v, error %v", ok, err)
				}
				if ok && !reflect.DeepEqual(got, hl.TypeOf(w)) {
					h.Fail("got %v, want %v", got, w)
				}
				if !reflect.DeepEqual(ta, hl.TypeOf(a)) || !reflect.DeepEqual(tb, hl.TypeOf(b)) {
					h.Fail("the types themselves were changed to %v and %v", ta, tb)
				}
			}
		}
		for i := 0; i < 2000; i++ {
			x := h.Int()
			h.Case("typing an integer", x)
			v := value.Int(x)
			w := "nat"
			if x < 0 {
				w = "int"
			}
			if !reflect.DeepEqual(v.Type(), hl.TypeOf(w)) {
				h.Fail("%v has type %v", x, v.Type())
			}
		}
		// order independence: every order of a few events on one channel, as branches and as a chain
		vals := []hl.MVal{{}, {K: 1, I: 1}, {K: 1, I: -1}, {K: 2, S: "x"}, {K: 1, I: 0}}
		for a := range vals {
			for b := range vals {
				for c := range vals {
					for form := 0; form < 3; form++ {
						l := []hl.MVal{vals[a], vals[b], vals[c]}
						t := tree(l, form)
						one(h, t)
					}
				}
			}
		}
		h.Rounds(300, 0.5, func(int) { one(h, h.Tree(1+h.Intn(30), h.TypedEv(h.Intn(3) == 0))) })
		h.Rounds(100, 1, func(int) {
			ev := h.TypedEv(h.Intn(3) == 0)
			s := testlang.Suite{}
			var roots []*testlang.Node
			good := true
			for i := h.Intn(7); i > 0; i-- {
				t := h.Tree(1+h.Intn(8), ev)
				s[fmt.Sprintf("t%d", i)] = t
				roots = append(roots, t)
				_, ok := hl.WantTypes(t)
				good = good && ok
			}
			want, ok := hl.WantTypes(roots...)
			h.Case("typing a suite", hl.JS(s))
			for rep := 0; rep < 3; rep++ {
				v, err := validate.FullSuite(s)
				if err != nil {
					h.Fail("valid suite refused: %v", err)
				}
				var b stm.Builder
				got, err := b.BuildSuite(v)
				if (ok && good) != (err == nil) {
					h.Fail("types agree=%v, error %v", ok, err)
				}
				if err != nil {
					continue
				}
				if bad := hl.SameTypes(got.Types, want); bad != "" {
					h.Fail("%s", bad)
				}
				for k, t := range s {
					w, _ := hl.WantTypes(t)
					if bad := hl.SameTypes(got.Tests[k].Types, w); bad != "" {
						h.Fail("test %q: %s", k, bad)
					}
				}
			}
		})
	})
}

func tree(l []hl.MVal, form int) *testlang.Node {
	mk := func(v hl.MVal, next ...testlang.Node) testlang.Node {
		e := hl.MEv{Name: "c", V: v}.Real()
		o := testlang.OutcomeInc
		if len(next) == 0 {
			o = testlang.OutcomePass
			next = []testlang.Node{{Tests: []string{"t"}, Outcome: testlang.OutcomeFail}}
		}
		return testlang.Node{Tests: []string{"t"}, Outcome: o, Event: &e, Next: next}
	}
	r := &testlang.Node{Tests: []string{"t"}}
	switch form {
	case 0:
		r.Next = []testlang.Node{mk(l[0]), mk(l[1]), mk(l[2])}
	case 1:
		r.Next = []testlang.Node{mk(l[0], mk(l[1], mk(l[2])))}
	default:
		r.Next = []testlang.Node{mk(l[0], mk(l[1])), mk(l[2])}
	}
	return r
}

func one(h *hl.H, t *testlang.Node) {
	want, ok := hl.WantTypes(t)
	h.Case("typing a machine", hl.JS(t))
	v, err := validate.Full(t)
	if err != nil {
		h.Fail("valid test refused: %v", err)
	}
	var b stm.Builder
	m, err := b.Build(v)
	if ok != (err == nil) {
		h.Fail("types agree=%v, error %v", ok, err)
	}
	if err == nil {
		if bad := hl.SameTypes(m.Types, want); bad != "" {
			h.Fail("%s", bad)
		}
	}
}
