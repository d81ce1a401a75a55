package main

import (
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func main() {
	hl.Main("C11", func(h *hl.H) {
		var evs []hl.MEv
		for _, n := range []string{"a", "b", "", "A"} {
			for k := 0; k < 3; k++ {
				for _, v := range []hl.MVal{{}, {K: 1}, {K: 1, I: 1}, {K: 1, I: -1}, {K: 2}, {K: 2, S: "0"}, {K: 2, S: "1"}, {K: 2, S: "x"}, {K: 2, S: "X"}, {K: 1, I: 1 << 32}, {K: 1, I: 1<<32 + 1}} {
					e := hl.MEv{Name: n, V: v}
					e.Kind = e.Kind + 0
					switch k {
					case 1:
						e.Kind = 1
					case 2:
						e.Kind = 2
					}
					evs = append(evs, e)
				}
			}
		}
		for _, a := range evs {
			for _, b := range evs {
				pair(h, a, b)
			}
		}
		for n := 0; n < 40; n++ {
			es := h.Evs(n)
			traces(h, es, es)
			if n > 0 {
				traces(h, es[:n-1], es)
				traces(h, es, es[:n-1])
				o := append([]hl.MEv{}, es...)
				i := h.Intn(n)
				o[i] = h.Ev()
				traces(h, es, o)
				o[i], o[n-1] = es[i], h.Ev()
				traces(h, es, o)
			}
		}
		h.Rounds(500, 1, func(int) {
			pair(h, h.Ev(), h.Ev())
			es := h.Evs(h.Len())
			o := append([]hl.MEv{}, es...)
			switch h.Intn(4) {
			case 0:
				o = append(o, h.Ev())
			case 1:
				if len(o) > 0 {
					o[h.Intn(len(o))] = h.Ev()
				}
			case 2:
				o = h.Evs(h.Len())
			case 3:
				if len(o) > 0 {
					o = o[:len(o)-1]
				}
			}
			traces(h, es, o)
			traces(h, o, es)
		})
	})
}

func pair(h *hl.H, a, b hl.MEv) {
	h.Case("comparing events", []hl.MEv{a, b})
	ra, rb := a.Real(), b.Real()
	if got := ra.Equals(rb); got != (a == b) {
		h.Fail("equal: got %v, want %v", got, a == b)
	}
	if got := ra.Channel.Equals(rb.Channel); got != (a.Name == b.Name && a.Kind == b.Kind) {
		h.Fail("channels equal: %v", got)
	}
	if got := ra.Value.Equals(rb.Value); got != (a.V == b.V) {
		h.Fail("values equal: %v", got)
	}
}

func traces(h *hl.H, a, b []hl.MEv) {
	h.Case("comparing traces", [][]hl.MEv{a, b})
	pre := len(a) <= len(b)
	for i := range a {
		pre = pre && i < len(b) && a[i] == b[i]
	}
	ta, tb := hl.RealEvs(a), hl.RealEvs(b)
	if got := ta.IsPrefixOf(tb); got != pre {
		h.Fail("prefix: got %v, want %v", got, pre)
	}
	if got := ta.Equals(tb); got != (pre && len(a) == len(b)) {
		h.Fail("equal: got %v", got)
	}
}
