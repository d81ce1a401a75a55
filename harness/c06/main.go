package main

import (
	"errors"
	"reflect"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
)

var errStop = errors.New("stop")

func check(h *hl.H, n *testlang.Node, stopAt int) {
	want := hl.Pre(n)
	h.Case("walking a tree", map[string]any{"tree": hl.JS(n), "stop_at": stopAt})
	var got []*testlang.Node
	err := testlang.Walk(n, func(m *testlang.Node) error {
		got = append(got, m)
		if len(got)-1 == stopAt {
			return errStop
		}
		return nil
	})
	if stopAt >= 0 && stopAt < len(want) {
		want = want[:stopAt+1]
		if err != errStop {
			h.Fail("error is %v", err)
		}
	} else if err != nil {
		h.Fail("unexpected error %v", err)
	}
	if len(got) != len(want) {
		h.Fail("%d visits, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			h.Fail("visit %d is of the wrong node", i)
		}
	}
}

// anyTree is a random finite tree, not necessarily valid.
func anyTree(h *hl.H, size *int, depth int) testlang.Node {
	*size--
	var n testlang.Node
	for k := h.Intn(4); k > 0 && *size > 0 && depth < 500; k-- {
		n.Next = append(n.Next, anyTree(h, size, depth+1))
	}
	return n
}

func main() {
	hl.Main("C06", func(h *hl.H) {
		var shapes func(n int) [][]testlang.Node // forests with n nodes
		memo := map[int][][]testlang.Node{}
		shapes = func(n int) [][]testlang.Node {
			if n == 0 {
				return [][]testlang.Node{nil}
			}
			if r, ok := memo[n]; ok {
				return r
			}
			var r [][]testlang.Node
			for k := 1; k <= n; k++ {
				for _, c := range shapes(k - 1) {
					for _, rest := range shapes(n - k) {
						r = append(r, append([]testlang.Node{{Next: c}}, rest...))
					}
				}
			}
			memo[n] = r
			return r
		}
		for n := 0; n <= 6; n++ {
			for _, f := range shapes(n) {
				for s := -1; s <= n; s++ {
					check(h, hl.Clone(&testlang.Node{Next: f}), s)
				}
			}
		}
		h.Rounds(200, 1, func(int) {
			size := 1 + h.Intn(60)
			if h.Intn(20) == 0 {
				size = 2000
			}
			t := anyTree(h, &size, 0)
			n := len(hl.Pre(&t))
			stop := -1
			if h.Intn(2) == 0 {
				stop = h.Intn(n)
			}
			check(h, &t, stop)
			h.Case("marking a tree", hl.JS(t))
			ts := h.Tests()
			if h.Intn(8) == 0 {
				ts = nil
			}
			testlang.MarkAll(&t, ts...)
			for i, m := range hl.Pre(&t) {
				if len(m.Tests) != len(ts) || (len(ts) > 0 && !reflect.DeepEqual(m.Tests, ts)) {
					h.Fail("node %d is marked %v, want %v", i, m.Tests, ts)
				}
			}
			if len(hl.Pre(&t)) != n {
				h.Fail("marking changed the tree")
			}
		})
	})
}
