package main

import (
	"encoding/csv"
	"errors"
	"io"
	"reflect"
	"strings"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

// ref is the independent reading of a trace file.
func ref(text string) ([]trace.Forbidden, bool) {
	cr := csv.NewReader(strings.NewReader(text))
	cr.FieldsPerRecord = -1
	cr.Comment = '#'
	cr.TrimLeadingSpace = true
	var out []trace.Forbidden
	for {
		row, err := cr.Read()
		if errors.Is(err, io.EOF) {
			return out, true
		}
		if err != nil || len(row) == 0 {
			return nil, false
		}
		var f trace.Forbidden
		var evs []testlang.Event
		for i, c := range row {
			if i == 0 {
				if j := strings.IndexByte(c, ':'); j >= 0 {
					f.Name = strings.TrimSpace(c[:j])
					c = strings.TrimSpace(c[j+1:])
				}
			}
			e, ok := hl.RefEvent(c)
			if !ok {
				return nil, false
			}
			evs = append(evs, e.Real())
		}
		f.Forbid = evs[len(evs)-1]
		if len(evs) > 1 {
			f.Prefix = evs[:len(evs)-1]
		}
		out = append(out, f)
	}
}

func check(h *hl.H, text string) {
	h.Case("reading a trace file", text)
	want, ok := ref(text)
	got, err := trace.Read(strings.NewReader(text))
	if !ok {
		if err == nil {
			h.Fail("a malformed file was accepted as %v", got)
		}
		if got != nil {
			h.Fail("traces %v returned besides the error %v", got, err)
		}
		return
	}
	if err != nil {
		h.Fail("unexpected error %v", err)
	}
	if len(got) != len(want) {
		h.Fail("got %d traces, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i].Name != want[i].Name || len(got[i].Prefix) != len(want[i].Prefix) {
			h.Fail("trace %d is %#v, want %#v", i, got[i], want[i])
		}
		for j := range got[i].Prefix {
			if !reflect.DeepEqual(got[i].Prefix[j], want[i].Prefix[j]) {
				h.Fail("trace %d event %d is %v, want %v", i, j, &got[i].Prefix[j], &want[i].Prefix[j])
			}
		}
		if !reflect.DeepEqual(got[i].Forbid, want[i].Forbid) {
			h.Fail("trace %d forbids %v, want %v", i, &got[i].Forbid, &want[i].Forbid)
		}
	}
}

func cell(h *hl.H, e hl.MEv) string {
	s := e.Text()
	if h.Intn(4) == 0 {
		s = e.Name + strings.Repeat(" ", h.Intn(3)) + "." + " " + strings.ToUpper(hl.KindText(e.Kind)) + " "
		if e.V.K != 0 {
			s += ". " + e.V.Text() + strings.Repeat(" ", h.Intn(3))
		}
	}
	return s
}

func quote(h *hl.H, s string) string {
	if strings.ContainsAny(s, "\",\n\r#") || h.Intn(6) == 0 {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func main() {
	hl.Main("C01", func(h *hl.H) {
		for _, s := range []string{"", "\n", "#c\n", "a.in", "a.in\n", "a.in,b.out", "n: a.in, b.out.2\n", "a.in,\n", ",a.in", ":a.in", "a:b:c.in", "\"\"\n", "a.in\n\nb.out\n#x\nc.call",
			"a.in, b", "a.in,b.foo\nc.in", "x.in\ny", "x.in.a:b", "a.in.x, b:c.in", "n:\na.in", " n : a.in", "a.in.\"q", "a.in\r\nb.in\r\n", "a", "a.in.1\na.in.1", "c.out.x,n: a.in", "test:a.in", "名:a.in"} {
			check(h, s)
		}
		for n := 1; n <= 40; n++ {
			check(h, strings.Repeat("a.in.1,b.out.x,", n)+"c.out")
			check(h, strings.Repeat("n:a.in.1,b.out.x\n", n))
			check(h, strings.Repeat("n:a.in.1,b.out.x\n", n)+"bad")
			check(h, strings.Repeat("a.in,", n)+"bad")
		}
		h.Rounds(300, 1, func(i int) {
			var sb strings.Builder
			n := h.Len()
			broken := -1
			if h.Intn(3) == 0 && n > 0 {
				broken = h.Intn(n)
			}
			for r := 0; r < n; r++ {
				k := 1 + h.Len()
				bad := -1
				if r == broken {
					bad = h.Intn(k)
				}
				var cells []string
				for j := 0; j < k; j++ {
					c := cell(h, h.Ev())
					if j == bad {
						c = []string{"", "x", "x.", ".in", "x.foo", "x.foo.1", "x.in\x00", " .out.1", "in", "x.ins"}[h.Intn(10)]
					}
					if j == 0 && h.Intn(3) == 0 {
						c = []string{"", " "}[h.Intn(2)] + h.Str() + []string{":", ": ", " :  "}[h.Intn(3)] + c
					}
					cells = append(cells, quote(h, c))
				}
				sb.WriteString(strings.Join(cells, []string{",", ", "}[h.Intn(2)]))
				sb.WriteString([]string{"\n", "\r\n", "\n\n", "\n# note\n"}[h.Intn(4)])
			}
			if h.Intn(12) == 0 {
				sb.WriteString(h.Str())
			}
			check(h, sb.String())
		})
	})
}
