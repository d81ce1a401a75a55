package main

import (
	"strconv"
	"strings"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func up(s string) string {
	r := []rune(s)
	if len(r) > 0 {
		r[0] = unicode.ToUpper(r[0])
	}
	return string(r)
}

func under(s string) string {
	var out []rune
	r := []rune(s)
	for i, c := range r {
		if i > 0 && unicode.IsLower(r[i-1]) && unicode.IsUpper(c) {
			out = append(out, '_')
		}
		out = append(out, unicode.ToLower(c))
	}
	return string(out)
}

func check(h *hl.H, s string) {
	h.Case("deriving names", s)
	eq := func(what, got, want string) {
		if got != want {
			h.Fail("%s: got %q, want %q", what, got, want)
		}
	}
	eq("UpcaseFirst", strmanip.UpcaseFirst(s), up(s))
	eq("ToLowerUnderscored", strmanip.ToLowerUnderscored(s), under(s))
	eq("CallbackName", cpp.CallbackName(s), s+"Callback")
	eq("ChannelMsgType", cpp.ChannelMsgType(s), up(s)+"Msg")
	eq("ChannelValueType", cpp.ChannelValueType(s), up(s)+"Val")
	eq("ConvertTo", cpp.ConvertTo(s), "to"+up(s))
	eq("ConvertFrom", cpp.ConvertFrom(s), "from"+up(s))
	eq("StateEntry", cpp.StateEntry(testlang.NodeID(s)), "enter"+up(s))
	eq("StateEnum", cpp.StateEnum(testlang.NodeID(s)), "State::"+strings.ToUpper(s))
	eq("TestEnum", cpp.TestEnum(s), "Test::"+strings.ToUpper(s))
	eq("EnumField", cpp.EnumField(s), strings.ToUpper(s))
	eq("EnumField(ID)", cpp.EnumField(testlang.NodeID(s)), strings.ToUpper(s))
	eq("Value(enum)", cpp.Value(hl.MVal{K: 2, S: s}.Real()), "\""+s+"\"")
}

func main() {
	hl.Main("C17", func(h *hl.H) {
		for o, n := range []string{"UNSET", "INC", "FAIL", "PASS"} {
			h.Case("naming outcomes", o)
			if got := cpp.OutcomeEnum(testlang.Outcome(o)); got != "rtcg::Outcome::"+n {
				h.Fail("got %q", got)
			}
		}
		for t, w := range map[string]string{"()": "void *", "enum": "std::string", "nat": "unsigned int", "int": "int", "real": "double"} {
			h.Case("naming types", t)
			if got := cpp.StdType(*hl.TypeOf(t)); got != w {
				h.Fail("got %q, want %q", got, w)
			}
		}
		alpha := []string{"a", "B", "_", "1", "é", "É", "ß", "ǅ", "z", "Z"}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			check(h, s)
			if n > 0 {
				for _, a := range alpha {
					rec(s+a, n-1)
				}
			}
		}
		rec("", 4)
		h.Rounds(500, 1, func(int) {
			check(h, h.Str())
			i := h.Int()
			h.Case("writing an integer", i)
			if got := cpp.Value(hl.MVal{K: 1, I: i}.Real()); got != strconv.FormatInt(i, 10) {
				h.Fail("got %q", got)
			}
		})
	})
}
