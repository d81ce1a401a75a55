package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/UoY-RoboStar/rtcg/internal/structure"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

var errBad = errors.New("bad")

func main() {
	hl.Main("C21", func(h *hl.H) {
		h.Rounds(300, 0.4, func(i int) {
			var s structure.Stack[int]
			var ref []int
			var log []string
			n := 0
			for k := 5 + h.Intn(60); k > 0; k-- {
				h.Case("stack operations", log)
				if s.IsEmpty() != (len(ref) == 0) {
					h.Fail("after %v: empty is %v with %d items", log, s.IsEmpty(), len(ref))
				}
				switch x := h.Intn(16); {
				case x == 0:
					log = append(log, "clear")
					h.Case("stack operations", log)
					s.Clear()
					ref = nil
				case x < 7 && len(ref) > 0:
					log = append(log, "pop")
					h.Case("stack operations", log)
					if got := s.Pop(); got != ref[len(ref)-1] {
						h.Fail("after %v: popped %d, want %d", log, got, ref[len(ref)-1])
					}
					ref = ref[:len(ref)-1]
				default:
					log = append(log, "push")
					h.Case("stack operations", log)
					s.Push(n)
					ref = append(ref, n)
					n++
				}
			}
		})
		h.Rounds(300, 0.5, func(int) {
			var vals []string
			for k := h.Len(); k > 0; k-- {
				vals = append(vals, h.Str())
			}
			cut := h.Intn(len(vals) + 1)
			h.Case("set operations", vals)
			s := structure.NewSet(vals[:cut]...)
			s.Add(vals[cut:]...)
			s.Add()
			m := map[string]bool{}
			want := []string{}
			for _, v := range vals {
				if !m[v] {
					m[v] = true
					want = append(want, v)
				}
			}
			got := append([]string{}, s.Values()...)
			sort.Strings(got)
			sort.Strings(want)
			if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
				h.Fail("set has %q, want %q", got, want)
			}
			other := structure.NewSet[string]()
			if len(other.Values()) != 0 {
				h.Fail("a new set has %q", other.Values())
			}
		})
		h.Rounds(300, 1, func(int) {
			in := map[string]int{}
			for k := h.Len(); k > 0; k-- {
				in[h.Str()] = h.Intn(5) - h.Intn(2)
			}
			bad := h.Intn(8)
			cp := map[string]int{}
			fails := false
			for k, v := range in {
				cp[k] = v
				fails = fails || v == bad
			}
			h.Case("mapping over a map", map[string]any{"map": in, "bad": bad})
			got, err := structure.TryOverMapValues(in, func(v int) (string, error) {
				if v == bad {
					return "zzz", errBad
				}
				return fmt.Sprint("v", v), nil
			})
			if fails {
				if !errors.Is(err, errBad) || got != nil {
					h.Fail("got %v, %v", got, err)
				}
			} else {
				if err != nil || len(got) != len(in) {
					h.Fail("got %v, %v", got, err)
				}
				for k, v := range in {
					if w, ok := got[k]; !ok || w != fmt.Sprint("v", v) {
						h.Fail("key %q maps to %q", k, w)
					}
				}
			}
			all := structure.OverMap(in, func(k string, v int) (string, string) { return "k" + k, fmt.Sprint(k, v) })
			if len(all) != len(in) {
				h.Fail("OverMap gives %v", all)
			}
			for k, v := range in {
				if w, ok := all["k"+k]; !ok || w != fmt.Sprint(k, v) {
					h.Fail("OverMap maps %q to %q", k, w)
				}
			}
			if !reflect.DeepEqual(in, cp) {
				h.Fail("the input map was changed")
			}
		})
	})
}
