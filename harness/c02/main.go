package main

import (
	"fmt"
	"reflect"
	"strings"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func check(h *hl.H, names []string) {
	in := make([]trace.Forbidden, len(names))
	for i, n := range names {
		in[i] = trace.New(testlang.Input("p", value.Int(int64(i)))).ForbidWithName(testlang.Output("f", value.Int(int64(i))), n)
	}
	h.Case("naming traces", names)
	cp := append([]trace.Forbidden{}, in...)
	got := trace.Name(in)
	if !reflect.DeepEqual(in, cp) {
		h.Fail("the input list was changed")
	}
	if len(got) != len(in) {
		h.Fail("%d names for %d traces", len(got), len(in))
	}
	of := map[int]string{}
	for k, t := range got {
		idx := -1
		for i := range in {
			if reflect.DeepEqual(t, in[i]) {
				idx = i
			}
		}
		if idx < 0 {
			h.Fail("name %q has an unlisted trace %#v", k, t)
		}
		if o, dup := of[idx]; dup {
			h.Fail("trace %d is under %q and %q", idx, o, k)
		}
		of[idx] = k
		base := names[idx]
		if base == "" {
			base = "test"
		}
		if !strings.HasPrefix(k, base) || strings.Trim(k[len(base):], "0123456789") != "" {
			h.Fail("trace %d with own name %q is called %q", idx, names[idx], k)
		}
	}
	taken := map[string]bool{}
	seen := map[string]bool{}
	for i, n := range names {
		if n != "" && n != "test" && !seen[n] && !taken[n] && of[i] != n {
			h.Fail("trace %d is the first called %q, which is free, but is called %q", i, n, of[i])
		}
		seen[n] = true
		taken[of[i]] = true
	}
	if again := trace.Name(in); !reflect.DeepEqual(again, got) {
		h.Fail("naming again gives %v, then %v", got, again)
	}
}

func main() {
	hl.Main("C02", func(h *hl.H) {
		pool := []string{"", "test", "test0", "test1", "a", "a0", "a00", "a1", "foo", "test00", "0", "名"}
		var rec func(pre []string, n int)
		rec = func(pre []string, n int) {
			check(h, pre)
			if n == 0 {
				return
			}
			for _, p := range pool[:8] {
				rec(append(append([]string{}, pre...), p), n-1)
			}
		}
		rec(nil, 3)
		for n := 0; n < 130; n += 13 {
			l := make([]string, n)
			check(h, l)
			for i := range l {
				l[i] = "n"
			}
			check(h, l)
			for i := range l {
				l[i] = fmt.Sprintf("n%d", n-i)
				if i%2 == 0 {
					l[i] = "n"
				}
			}
			check(h, l)
		}
		h.Rounds(200, 1, func(int) {
			l := make([]string, h.Len())
			for i := range l {
				l[i] = pool[h.Intn(len(pool))]
				if h.Intn(8) == 0 {
					l[i] = h.Str()
				}
			}
			check(h, l)
		})
	})
}
