package hlib

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
)

// TypedEv makes events whose values on one channel have compatible types (unless bad).
func (h *H) TypedEv(bad bool) func() MEv {
	kinds := map[string]int{}
	return func() MEv {
		e := h.Ev()
		if bad && h.Intn(6) == 0 {
			return e
		}
		k, ok := kinds[e.Name]
		if !ok {
			k = h.Intn(3)
			kinds[e.Name] = k
		}
		switch k {
		case 0:
			e.V = MVal{}
		case 1:
			e.V = MVal{K: 1, I: h.Int()}
		default:
			e.V = MVal{K: 2, S: h.EnumText()}
		}
		return e
	}
}

// rank of the type of a value: 0 none, 1 nat, 2 int, 4 enum
func valType(e *testlang.Event) string {
	switch {
	case e.Value.IsEmpty():
		return "()"
	}
	bs, _ := e.Value.MarshalText()
	for _, i := range []int64{} {
		_ = i
	}
	if i, ok := RefInt(string(bs)); ok && reflect.DeepEqual(e.Value, (MVal{K: 1, I: i}).Real()) {
		if i >= 0 {
			return "nat"
		}
		return "int"
	}
	return "enum"
}

// Join is the least upper bound of two type names; "" is no type yet.
func Join(a, b string) (string, bool) {
	num := map[string]int{"nat": 1, "int": 2, "real": 3}
	switch {
	case a == "":
		return b, true
	case b == "":
		return a, true
	case a == b:
		return a, true
	case num[a] > 0 && num[b] > 0:
		if num[a] > num[b] {
			return a, true
		}
		return b, true
	}
	return "", false
}

// WantTypes gives the type names of all channels in trees, or false if there is a clash.
func WantTypes(roots ...*testlang.Node) (map[string]string, bool) {
	m := map[string]string{}
	good := true
	for _, r := range roots {
		for _, n := range Pre(r) {
			if n.Event == nil {
				continue
			}
			c := n.Event.Channel.Name
			t, ok := Join(m[c], valType(n.Event))
			if !ok {
				good = false
				continue
			}
			m[c] = t
		}
	}
	return m, good
}

// SameTypes compares a type map with type names.
func SameTypes(got stm.TypeMap, want map[string]string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d types, want %d: got %v, want %v", len(got), len(want), got, want)
	}
	for c, w := range want {
		g, ok := got[c]
		if !ok || g == nil {
			return fmt.Sprintf("no type for channel %q", c)
		}
		if !reflect.DeepEqual(g, TypeOf(w)) {
			return fmt.Sprintf("channel %q has type %v, want %s", c, g, w)
		}
	}
	return ""
}

// TypeOf makes a type from its name.
func TypeOf(n string) *rstype.RsType {
	switch n {
	case "()":
		return rstype.Empty()
	case "enum":
		return rstype.Enum()
	case "nat":
		return rstype.Arithmos(rstype.ArithmosDomainNat)
	case "int":
		return rstype.Arithmos(rstype.ArithmosDomainInt)
	case "real":
		return rstype.Arithmos(rstype.ArithmosDomainReal)
	}
	return nil
}

// Shape compares a machine with its tree (which carries the identifiers the builder gave it).
func Shape(root *testlang.Node, m *stm.Stm, fresh bool) string {
	var live []*testlang.Node
	for _, n := range Pre(root) {
		if n.Outcome != testlang.OutcomeFail {
			live = append(live, n)
		}
	}
	if len(m.States) != len(live) {
		return fmt.Sprintf("%d states for %d live nodes", len(m.States), len(live))
	}
	if m.States[0] == nil || m.States[0].ID != "initial" || root.ID != "initial" {
		return "the first state is not called initial"
	}
	by := map[testlang.NodeID]*stm.State{}
	for _, s := range m.States {
		if s == nil {
			return "a state is missing"
		}
		if _, dup := by[s.ID]; dup {
			return fmt.Sprintf("two states are called %q", s.ID)
		}
		by[s.ID] = s
	}
	for _, n := range live {
		s := by[n.ID]
		if s == nil {
			return fmt.Sprintf("node %q has no state", n.ID)
		}
		type tr struct {
			c  channel.Channel
			v  string
			to testlang.NodeID
		}
		want := map[string]int{}
		for i := range n.Next {
			if c := &n.Next[i]; c.Outcome != testlang.OutcomeFail {
				want[fmt.Sprintf("%#v", tr{c.Event.Channel, valKey(c.Event), c.ID})]++
			}
		}
		seen := map[channel.Channel]bool{}
		for _, ts := range s.TransitionSets {
			if seen[ts.Channel] {
				return fmt.Sprintf("state %q has two sets for channel %v", s.ID, &ts.Channel)
			}
			seen[ts.Channel] = true
			if len(ts.Transitions) == 0 {
				return fmt.Sprintf("state %q has an empty transition set", s.ID)
			}
			for _, t := range ts.Transitions {
				e := testlang.Event{Channel: ts.Channel, Value: t.Value}
				k := fmt.Sprintf("%#v", tr{ts.Channel, valKey(&e), t.Next})
				if want[k] == 0 {
					return fmt.Sprintf("state %q has an unexpected or duplicate transition on %v to %q", s.ID, &e, t.Next)
				}
				want[k]--
			}
		}
		for k, c := range want {
			if c != 0 {
				return fmt.Sprintf("state %q lacks transition %s", s.ID, k)
			}
		}
	}
	return ""
}

func valKey(e *testlang.Event) string {
	if e.Value.IsEmpty() {
		return "none"
	}
	bs, _ := e.Value.MarshalText()
	return valType(e) + ":" + string(bs)
}

// Verdicts compares the verdicts and test sets of a machine with its tree.
func Verdicts(root *testlang.Node, m *stm.Stm) string {
	by := map[testlang.NodeID]*stm.State{}
	for _, s := range m.States {
		by[s.ID] = s
	}
	tests := map[string]bool{}
	for i, n := range Pre(root) {
		if i > 0 {
			for _, t := range n.Tests {
				tests[t] = true
			}
		}
		if n.Outcome == testlang.OutcomeFail {
			continue
		}
		want := verdict.Verdict{}
		for j := range n.Next {
			for _, t := range n.Next[j].Tests {
				want[t] = n.Next[j].Outcome
			}
		}
		s := by[n.ID]
		if s == nil || s.Verdict == nil {
			return fmt.Sprintf("no verdict for node %q", n.ID)
		}
		if len(*s.Verdict) != len(want) || (len(want) > 0 && !reflect.DeepEqual(*s.Verdict, want)) {
			return fmt.Sprintf("state %q has verdicts %v, want %v", s.ID, map[string]testlang.Outcome(*s.Verdict), map[string]testlang.Outcome(want))
		}
		if bad := Queries(s.Verdict); bad != "" {
			return bad
		}
	}
	got := append([]string{}, m.Tests.Values()...)
	sort.Strings(got)
	want := []string{}
	for t := range tests {
		want = append(want, t)
	}
	sort.Strings(want)
	if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
		return fmt.Sprintf("the machine's tests are %q, want %q", got, want)
	}
	return ""
}

// Queries checks the queries on a verdict.
func Queries(v *verdict.Verdict) string {
	all := []string{}
	for k := range *v {
		all = append(all, k)
	}
	sort.Strings(all)
	if got := v.Tests(); len(got) != len(all) || (len(all) > 0 && !reflect.DeepEqual(got, all)) {
		return fmt.Sprintf("Tests() is %q, want %q", got, all)
	}
	q := func(what string, o testlang.Outcome, is bool, set verdict.TestSet) string {
		want := []string{}
		for k, x := range *v {
			if x == o {
				want = append(want, k)
			}
		}
		sort.Strings(want)
		got := setValues(set)
		sort.Strings(got)
		if is != (len(want) > 0) {
			return fmt.Sprintf("%s: says %v with tests %q", what, is, want)
		}
		if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
			return fmt.Sprintf("%s: set is %q, want %q", what, got, want)
		}
		return ""
	}
	for o := testlang.Outcome(0); o < 5; o++ {
		if bad := q(fmt.Sprintf("outcome %d", o), o, v.Is(o), v.SetOf(o)); bad != "" {
			return bad
		}
	}
	if bad := q("inconclusive", testlang.OutcomeInc, v.IsInc(), v.Inc()); bad != "" {
		return bad
	}
	if bad := q("passing", testlang.OutcomePass, v.IsPass(), v.Pass()); bad != "" {
		return bad
	}
	return q("failing", testlang.OutcomeFail, v.IsFail(), v.Fail())
}

func setValues(s verdict.TestSet) []string {
	v := reflect.ValueOf(s)
	r := []string{}
	m := v.FieldByName("contents")
	for _, k := range m.MapKeys() {
		if m.MapIndex(k).Bool() {
			r = append(r, k.String())
		}
	}
	return r
}

// Machine is a random state machine with arbitrary sets and shared channels.
func (h *H) Machine() *stm.Stm {
	m := &stm.Stm{Types: stm.TypeMap{}}
	chans := []channel.Channel{}
	for i := 1 + h.Intn(5); i > 0; i-- {
		chans = append(chans, channel.Channel{Name: names[h.Intn(6)], Kind: channel.Kind(h.Intn(3))})
	}
	n := h.Len()
	for i := 0; i < n; i++ {
		s := stm.NewState(testlang.NodeID(fmt.Sprintf("s%d", i)))
		seen := map[channel.Channel]bool{}
		for k := h.Intn(4); k > 0; k-- {
			c := chans[h.Intn(len(chans))]
			if seen[c] {
				continue
			}
			seen[c] = true
			set := transition.NewSet(c)
			for l := 1 + h.Intn(3); l > 0; l-- {
				set.Transitions = append(set.Transitions, transition.Transition{Value: h.Val().Real(), Next: testlang.NodeID(fmt.Sprintf("s%d", h.Intn(n)))})
			}
			if h.Intn(5) == 0 { // spare capacity
				set.Transitions = append(make([]transition.Transition, 0, len(set.Transitions)+3), set.Transitions...)
			}
			s.TransitionSets = append(s.TransitionSets, set)
		}
		m.States = append(m.States, s)
	}
	return m
}
