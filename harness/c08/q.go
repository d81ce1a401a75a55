package main

import (
	"fmt"

	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func queries(h *hl.H) {
	h.Rounds(500, 0.2, func(i int) {
		v := verdict.Verdict{}
		ref := map[string]testlang.Outcome{}
		for k := h.Len(); k > 0; k-- {
			o := testlang.Outcome(h.Intn(4))
			ts := h.Tests()
			if h.Intn(6) == 0 {
				ts = nil
			}
			h.Case("adding verdicts", fmt.Sprint(ts, o))
			v.Add(o, ts...)
			for _, t := range ts {
				ref[t] = o
			}
		}
		h.Case("querying verdicts", ref)
		if len(v) != len(ref) {
			h.Fail("verdicts are %v, want %v", map[string]testlang.Outcome(v), ref)
		}
		for k, o := range ref {
			if v[k] != o {
				h.Fail("verdict of %q is %v, want %v", k, v[k], o)
			}
		}
		if bad := hl.Queries(&v); bad != "" {
			h.Fail("%s", bad)
		}
	})
}
