// Package hlib is the shared part of the bounded replay harness: generators,
// an independent reference model of events and trees, and reporting.
package hlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

// H is one harness run.
type H struct {
	*rand.Rand
	Prop     string
	Thorough bool
	Seed     int64
	end      time.Time
	out      string
	Cases    map[string]int
	cur      any
	curWhat  string
	Scratch  string
	Bin      string
	Repo     string
	dirs     int
	seen     map[uint64]struct{}
	samples  []string
}

// Main runs body with panic reporting; exit 0 = nothing found, 1 = violation, 3 = harness trouble.
func Main(prop string, body func(h *H)) {
	budget := flag.Duration("budget", 8*time.Second, "time budget")
	seed := flag.Int64("seed", 1, "seed")
	thorough := flag.Bool("thorough", false, "thorough tier")
	out := flag.String("out", "", "result file")
	scratch := flag.String("scratch", "", "scratch directory")
	bin := flag.String("bin", "", "directory of built tools")
	repo := flag.String("repo", "/repo", "repository")
	flag.Parse()
	h := &H{Rand: rand.New(rand.NewSource(*seed)), Prop: prop, Thorough: *thorough, Seed: *seed,
		end: time.Now().Add(*budget), out: *out, Cases: map[string]int{}, seen: map[uint64]struct{}{}, Scratch: *scratch, Bin: *bin, Repo: *repo}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				os.Exit(1)
			}
			st := string(debug.Stack())
			if t, ok := r.(trouble); ok {
				fmt.Fprintln(os.Stderr, "harness trouble:", t)
				os.Exit(3)
			}
			if h.curWhat == "" || own(st) {
				fmt.Fprintln(os.Stderr, "harness trouble:", r, "\n", st)
				os.Exit(3)
			}
			h.report("panic in "+h.curWhat+": "+fmt.Sprint(r), h.cur, st)
			os.Exit(1)
		}
	}()
	body(h)
	h.write(map[string]any{"ok": true, "cases": h.Cases, "distinct": len(h.seen), "samples": h.samples, "seed": h.Seed})
}

type stop struct{}

// own says whether the panic arose in the harness itself (a defect of the harness).
func own(st string) bool {
	_, after, _ := strings.Cut(st, "\npanic(")
	for _, l := range strings.Split(after, "\n") {
		if strings.HasPrefix(l, "github.com/UoY-RoboStar/rtcg/") || strings.HasPrefix(l, "main.") {
			return strings.Contains(l, "/zzverif/")
		}
	}
	return false
}

func (h *H) write(m map[string]any) {
	bs, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		bs = []byte(fmt.Sprintf("%q", fmt.Sprint(m)))
	}
	if h.out != "" {
		_ = os.WriteFile(h.out, bs, 0o644)
	} else {
		fmt.Println(string(bs))
	}
}

func (h *H) report(what string, input any, stack string) {
	if len(what) > 4000 {
		what = what[:4000] + "..."
	}
	m := map[string]any{"ok": false, "what": what, "input": fmt.Sprintf("%#v", input), "input_text": fmt.Sprint(input), "seed": h.Seed, "cases": h.Cases}
	if js, err := json.Marshal(input); err == nil {
		m["input_json"] = string(js)
	}
	if stack != "" {
		m["stack"] = stack
	}
	h.write(m)
}

// Case starts a case: a panic from here on is a violation on input.
func (h *H) Case(what string, input any) {
	h.cur, h.curWhat = input, what
	h.Cases[what]++
	if len(h.seen) >= 20000 {
		return
	}
	js, err := json.Marshal(input)
	if err != nil {
		js = []byte(fmt.Sprintf("%v", input))
	}
	if len(js) <= 4 { // null, "", {}, [], small scalars: trivial
		return
	}
	f := fnv.New64a()
	_, _ = f.Write([]byte(what))
	_, _ = f.Write(js)
	if _, ok := h.seen[f.Sum64()]; !ok {
		h.seen[f.Sum64()] = struct{}{}
		if h.Cases[what] <= 3 && len(h.samples) < 12 {
			if len(js) > 600 {
				js = append(js[:600], "..."...)
			}
			h.samples = append(h.samples, what+": "+string(js))
		}
	}
}

// Done ends the panic-sensitive part.
func (h *H) Done() { h.curWhat = "" }

// Fail reports a violation and stops.
func (h *H) Fail(format string, args ...any) {
	h.report(h.curWhat+": "+fmt.Sprintf(format, args...), h.cur, "")
	panic(stop{})
}

// More says whether there is time for more.
func (h *H) More() bool { return time.Now().Before(h.end) }

// Left is the time left.
func (h *H) Left() time.Duration { return time.Until(h.end) }

// Rounds runs f until the budget ends, at least min times.
func (h *H) Rounds(min int, share float64, f func(i int)) {
	end := time.Now().Add(time.Duration(float64(h.Left()) * share))
	for i := 0; i < min || time.Now().Before(end); i++ {
		f(i)
		h.Done()
	}
}

var names = []string{"a", "b", "foo", "bar", "Foo", "in", "out", "test", "test0", "test1", "x0", "é", "名前", "a b", "batteryStatus", "A_b", "call", "fooBar",
	"n1", "0", "-", "a:b", "step0", "initial", "very_long_name_of_a_channel_that_goes_on_and_on_and_on", "q\"q", "tab\tin", "x'y", "100%", "%s", "%d", "a/b", "\\n", "aé"}

// ChanName is a non-empty, trimmed, dot-free channel name.
func (h *H) ChanName() string {
	if h.Intn(4) > 0 {
		return names[h.Intn(8)]
	}
	if h.Intn(2) == 0 {
		return names[h.Intn(len(names))]
	}
	return names[h.Intn(len(names))] + strconv.Itoa(h.Intn(30))
}

// Str is any valid UTF-8 string.
func (h *H) Str() string {
	switch h.Intn(6) {
	case 0:
		return ""
	case 1:
		n := h.Intn(40)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(h.Rune())
		}
		return sb.String()
	default:
		return names[h.Intn(len(names))]
	}
}

func pick[T any](h *H, l []T) T { return l[h.Intn(len(l))] }

// Rune is any printable-ish rune, biased to interesting ones.
func (h *H) Rune() rune {
	switch h.Intn(8) {
	case 0:
		return pick(h, []rune("éÉßſİıÀΩωǅǆ名𝒜\u2028\u00a0\u0085 ÿ"))
	case 1:
		return rune('A' + h.Intn(26))
	case 2:
		return '_'
	case 3:
		return pick(h, []rune("{}$:.,;\"'\\/|#%<>&-+!?*()[]=~^`@ \t"))
	case 4:
		return rune('0' + h.Intn(10))
	case 5:
		r := rune(h.Intn(0x3000))
		if r == 0 || !unicode.IsPrint(r) {
			return 'z'
		}
		return r
	default:
		return rune('a' + h.Intn(26))
	}
}

// Int is any int64, biased to boundaries.
func (h *H) Int() int64 {
	switch h.Intn(6) {
	case 0:
		return pick(h, []int64{0, 1, -1, 2, math.MaxInt64, math.MinInt64, 1 << 31, -(1 << 31), 1 << 32, math.MaxInt32, math.MaxUint32, 9, 10, -10, 42, 255, 256})
	case 1:
		return int64(h.Uint64())
	default:
		return int64(h.Intn(8)) - 2
	}
}

// MVal is the model of a value: kind 0 none, 1 int, 2 enum.
type MVal struct {
	K int
	I int64
	S string
}

// Real builds the real value.
func (v MVal) Real() value.Value {
	switch v.K {
	case 1:
		return value.Int(v.I)
	case 2:
		return value.Enum(v.S)
	}
	return value.None()
}

// Text is the plain text of the value.
func (v MVal) Text() string {
	if v.K == 1 {
		return strconv.FormatInt(v.I, 10)
	}
	return v.S
}

// MEv is the model of an event.
type MEv struct {
	Name string
	Kind channel.Kind
	V    MVal
}

// Real builds the real event.
func (e MEv) Real() testlang.Event {
	return testlang.Event{Channel: channel.Channel{Name: e.Name, Kind: e.Kind}, Value: e.V.Real()}
}

// KindText is the text of a kind.
func KindText(k channel.Kind) string { return [...]string{"in", "out", "call"}[k] }

// Text is the text notation of the event.
func (e MEv) Text() string {
	s := e.Name + "." + KindText(e.Kind)
	if e.V.K != 0 {
		s += "." + e.V.Text()
	}
	return s
}

// IsNumber says whether s would be read as a 64-bit integer.
func IsNumber(s string) bool { _, ok := RefInt(s); return ok }

// RefInt is an independent reader of 64-bit decimal integers.
func RefInt(s string) (int64, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if n > (1<<63)/10 || n*10+d > 1<<63 {
			return 0, false
		}
		n = n*10 + d
	}
	if neg {
		return -int64(n), true
	}
	if n > math.MaxInt64 {
		return 0, false
	}
	return int64(n), true
}

// Val is a random value; enums are trimmed, dot or not, and not numbers.
func (h *H) Val() MVal {
	switch h.Intn(4) {
	case 0:
		return MVal{}
	case 1:
		return MVal{K: 2, S: h.EnumText()}
	default:
		return MVal{K: 1, I: h.Int()}
	}
}

// EnumText is a trimmed text that is not a number.
func (h *H) EnumText() string {
	if h.Intn(2) == 0 {
		return pick(h, []string{"Ok", "Low", "Critical", "a.b", "", "1x", "-", "{| x=1 |}", "99999999999999999999", "in", "1.5", "0x10", "1_000", "--1"})
	}
	for {
		s := strings.TrimSpace(h.Str())
		if !IsNumber(s) {
			return s
		}
	}
}

// Ev is a random event on a proper channel.
func (h *H) Ev() MEv {
	return MEv{h.ChanName(), channel.Kind(h.Intn(3)), h.Val()}
}

// Len is a length, usually short, sometimes long.
func (h *H) Len() int {
	switch h.Intn(12) {
	case 0:
		return h.Intn(70)
	case 1:
		return 8 + h.Intn(10)
	default:
		return h.Intn(5)
	}
}

// Evs is a random event list.
func (h *H) Evs(n int) []MEv {
	es := make([]MEv, n)
	for i := range es {
		es[i] = h.Ev()
		if i > 0 && h.Intn(4) == 0 {
			es[i] = es[h.Intn(i)]
		}
	}
	return es
}

// RealEvs converts; nil for none.
func RealEvs(es []MEv) trace.Trace {
	if len(es) == 0 {
		return nil
	}
	t := make(trace.Trace, len(es))
	for i, e := range es {
		t[i] = e.Real()
	}
	return t
}

// Forbidden is a random forbidden trace.
func (h *H) Forbidden() trace.Forbidden {
	return trace.Forbidden{Name: "", Prefix: RealEvs(h.Evs(h.Len())), Forbid: h.Ev().Real()}
}

// Tests is a non-empty list of names.
func (h *H) Tests() []string {
	n := 1 + h.Intn(2)
	if h.Intn(10) == 0 {
		n = 1 + h.Intn(12)
	}
	ts := make([]string, n)
	for i := range ts {
		ts[i] = fmt.Sprintf("t%d", h.Intn(5))
		if h.Intn(12) == 0 {
			ts[i] = h.Str()
		}
	}
	return ts
}

// Tree is a random valid test tree; ev makes the events.
func (h *H) Tree(size int, ev func() MEv) *testlang.Node {
	root := &testlang.Node{Tests: h.Tests()}
	n := h.Intn(4)
	for i := 0; i < n && size > 0; i++ {
		root.Next = append(root.Next, h.sub(&size, ev, 0))
	}
	if len(root.Next) == 0 && h.Intn(3) > 0 {
		root.Next = append(root.Next, h.sub(&size, ev, 0))
	}
	return root
}

func (h *H) sub(size *int, ev func() MEv, depth int) testlang.Node {
	*size--
	if *size > 0 && h.Intn(3) > 0 && depth < 200 {
		e := ev().Real()
		n := testlang.Node{Tests: h.Tests(), Outcome: testlang.OutcomeInc, Event: &e}
		k := 1
		switch h.Intn(6) {
		case 0:
			k = 2 + h.Intn(3)
		case 1:
			k = 2
		case 2:
			if h.Intn(10) == 0 {
				k = 9
			}
		}
		for i := 0; i < k; i++ {
			n.Next = append(n.Next, h.sub(size, ev, depth+1))
		}
		return n
	}
	switch h.Intn(5) {
	case 0:
		return testlang.Node{Tests: h.Tests(), Outcome: testlang.OutcomeFail}
	case 1:
		// A passing node with an arbitrary valid continuation.
		e := ev().Real()
		n := testlang.Node{Tests: h.Tests(), Outcome: testlang.OutcomePass, Event: &e}
		if *size > 0 {
			n.Next = []testlang.Node{h.sub(size, ev, depth+1)}
		} else {
			n.Next = []testlang.Node{{Tests: h.Tests(), Outcome: testlang.OutcomeFail}}
		}
		return n
	default:
		e := ev().Real()
		return testlang.Node{Tests: h.Tests(), Outcome: testlang.OutcomePass, Event: &e,
			Next: []testlang.Node{{Tests: h.Tests(), Outcome: testlang.OutcomeFail}}}
	}
}

// Pre lists the nodes of a tree in pre-order.
func Pre(n *testlang.Node) []*testlang.Node {
	r := []*testlang.Node{n}
	for i := range n.Next {
		r = append(r, Pre(&n.Next[i])...)
	}
	return r
}

// Clone copies a tree.
func Clone(n *testlang.Node) *testlang.Node {
	c := clone(*n)
	return &c
}

func clone(n testlang.Node) testlang.Node {
	if n.Tests != nil {
		n.Tests = append([]string{}, n.Tests...)
	}
	if n.Event != nil {
		e := *n.Event
		n.Event = &e
	}
	if n.Next != nil {
		next := make([]testlang.Node, len(n.Next))
		for i := range next {
			next[i] = clone(n.Next[i])
		}
		n.Next = next
	}
	return n
}

// Mutate breaks (or not) a random place of a tree.
func (h *H) Mutate(root *testlang.Node) {
	ns := Pre(root)
	n := ns[h.Intn(len(ns))]
	switch h.Intn(10) {
	case 0:
		n.Tests = nil
	case 1:
		n.Tests = []string{}
	case 2:
		n.Outcome = testlang.Outcome(h.Intn(5))
	case 3:
		n.Event = nil
	case 4:
		e := h.Ev().Real()
		n.Event = &e
	case 5:
		n.Next = nil
	case 6:
		n.Next = []testlang.Node{}
	case 7:
		n.Next = append(append([]testlang.Node{}, n.Next...), testlang.Node{Tests: h.Tests(), Outcome: testlang.OutcomeFail})
	case 8:
		n.Outcome = testlang.Outcome(h.Intn(256))
	case 9:
		if len(n.Next) > 0 {
			n.Next = append([]testlang.Node{}, n.Next[1:]...)
		}
	}
}

// WF is the independent statement of validity.
func WF(root *testlang.Node) bool {
	if root == nil || root.Event != nil || root.Outcome != testlang.OutcomeUnset || len(root.Tests) == 0 {
		return false
	}
	for i := range root.Next {
		if !wfn(&root.Next[i]) {
			return false
		}
	}
	return true
}

func wfn(n *testlang.Node) bool {
	if len(n.Tests) == 0 {
		return false
	}
	switch n.Outcome {
	case testlang.OutcomeFail:
		return n.Event == nil && len(n.Next) == 0
	case testlang.OutcomePass:
		if n.Event == nil || len(n.Next) != 1 {
			return false
		}
	case testlang.OutcomeInc:
		if n.Event == nil || len(n.Next) == 0 {
			return false
		}
	default:
		return false
	}
	for i := range n.Next {
		if !wfn(&n.Next[i]) {
			return false
		}
	}
	return true
}

// RefEvent is the independent reader of the event notation.
func RefEvent(text string) (MEv, bool) {
	f := strings.SplitN(text, ".", 3)
	if len(f) < 2 {
		return MEv{}, false
	}
	e := MEv{Name: strings.TrimSpace(f[0])}
	if e.Name == "" {
		return MEv{}, false
	}
	switch strings.ToLower(strings.TrimSpace(f[1])) {
	case "in":
		e.Kind = channel.KindIn
	case "out":
		e.Kind = channel.KindOut
	case "call":
		e.Kind = channel.KindCall
	default:
		return MEv{}, false
	}
	if len(f) == 3 {
		v := strings.TrimSpace(f[2])
		if i, ok := RefInt(v); ok {
			e.V = MVal{K: 1, I: i}
		} else {
			e.V = MVal{K: 2, S: v}
		}
	}
	return e, true
}

// JS shows a value.
func JS(v any) string {
	bs, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(bs)
}
