package main

import (
	"encoding"
	"fmt"
	"reflect"
	"strings"

	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
	cppcfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
)

type kw[T any] struct {
	what string
	all  map[string]T
	zero func() (encoding.TextUnmarshaler, func() T)
	text func(*T) encoding.TextMarshaler
	in   string
}

func mixed(h *hl.H, s string) string {
	bs := []byte(s)
	for i := range bs {
		if h.Intn(2) == 0 {
			bs[i] = strings.ToUpper(string(bs[i]))[0]
		}
	}
	return string(bs)
}

func keyword[T comparable](h *hl.H, what string, all map[string]T, m func(*T) ([]byte, error), u func(*T, []byte) error) {
	for s, v := range all {
		v := v
		h.Case("printing a "+what, s)
		bs, err := m(&v)
		if err != nil || string(bs) != s {
			h.Fail("got %q, error %v", bs, err)
		}
		for i := 0; i < 12; i++ {
			t := s
			if i == 1 {
				t = strings.ToUpper(s)
			} else if i > 1 {
				t = mixed(h, s)
			}
			h.Case("reading a "+what, t)
			var got T
			if err := u(&got, []byte(t)); err != nil || got != v {
				h.Fail("got %v, error %v; want %v", got, err, v)
			}
		}
	}
	bad := func(t string) {
		if _, ok := all[strings.ToLower(t)]; ok {
			return
		}
		h.Case("reading a bad "+what, t)
		var got T
		if err := u(&got, []byte(t)); err == nil {
			h.Fail("accepted as %v", got)
		}
	}
	for _, t := range []string{"", "x", "inn", "i", "ou", "unsetx", "nats", "0", "1", "2", "inc,", "call.", "\x00", "ros2", "(", ")", "( )", "integer"} {
		bad(t)
	}
	for s := range all {
		bad(s + "x")
		bad("x" + s)
		if s != "" {
			bad(s[1:])
			bad(s[:len(s)-1])
		}
	}
	h.Rounds(50, 0.05, func(int) { bad(h.Str()) })
}

func event(h *hl.H, text string) {
	want, ok := hl.RefEvent(text)
	h.Case("reading an event", text)
	var e testlang.Event
	err := e.UnmarshalText([]byte(text))
	if ok != (err == nil) {
		h.Fail("well-formed=%v, error %v", ok, err)
	}
	if !ok {
		return
	}
	if !reflect.DeepEqual(e, want.Real()) {
		h.Fail("got %v, want %#v", &e, want)
	}
	bs, err := e.MarshalText()
	if err != nil {
		h.Fail("cannot be printed: %v", err)
	}
	var e2 testlang.Event
	if err := e2.UnmarshalText(bs); err != nil || !reflect.DeepEqual(e2, e) {
		h.Fail("prints as %q, which reads as %v, error %v", bs, &e2, err)
	}
	if string(bs) != want.Text() {
		h.Fail("prints as %q, want %q", bs, want.Text())
	}
}

func main() {
	hl.Main("C10", func(h *hl.H) {
		keyword(h, "communication kind", map[string]channel.Kind{"in": channel.KindIn, "out": channel.KindOut, "call": channel.KindCall},
			func(k *channel.Kind) ([]byte, error) { return k.MarshalText() }, func(k *channel.Kind, b []byte) error { return k.UnmarshalText(b) })
		keyword(h, "outcome", map[string]testlang.Outcome{"unset": testlang.OutcomeUnset, "inc": testlang.OutcomeInc, "fail": testlang.OutcomeFail, "pass": testlang.OutcomePass},
			func(k *testlang.Outcome) ([]byte, error) { return k.MarshalText() }, func(k *testlang.Outcome, b []byte) error { return k.UnmarshalText(b) })
		keyword(h, "variant", map[string]cppcfg.Variant{"animate": cppcfg.VariantAnimate, "ros": cppcfg.VariantRos},
			func(k *cppcfg.Variant) ([]byte, error) { return k.MarshalText() }, func(k *cppcfg.Variant, b []byte) error { return k.UnmarshalText(b) })
		keyword(h, "number domain", map[string]rstype.ArithmosDomain{"unknown": rstype.ArithmosDomainUnknown, "nat": rstype.ArithmosDomainNat, "int": rstype.ArithmosDomainInt, "real": rstype.ArithmosDomainReal},
			func(k *rstype.ArithmosDomain) ([]byte, error) { return k.MarshalText() }, func(k *rstype.ArithmosDomain, b []byte) error { return k.UnmarshalText(b) })
		keyword(h, "type", map[string]rstype.RsType{"()": *rstype.Empty(), "enum": *rstype.Enum(), "nat": *hl.TypeOf("nat"), "int": *hl.TypeOf("int"), "real": *hl.TypeOf("real")},
			func(k *rstype.RsType) ([]byte, error) { return k.MarshalText() }, func(k *rstype.RsType, b []byte) error { return k.UnmarshalText(b) })
		keyword(h, "type kind", map[string]rstype.Kind{"empty": rstype.KindEmpty, "arithmos": rstype.KindArithmos, "enum": rstype.KindEnum},
			func(k *rstype.Kind) ([]byte, error) { return k.MarshalText() }, func(k *rstype.Kind, b []byte) error { return k.UnmarshalText(b) })

		parts := []string{"", " ", "a", "in", "OUT", " Call ", "foo", "1", "-5", "+7", "x.y", "inx", " a ", "é", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "007", "-0", "1 2"}
		for _, a := range parts {
			event(h, a)
			for _, b := range parts {
				event(h, a+"."+b)
				for _, c := range parts {
					event(h, a+"."+b+"."+c)
				}
			}
		}
		h.Rounds(500, 1, func(i int) {
			switch i % 4 {
			case 0:
				e := h.Ev()
				event(h, e.Text())
				h.Case("printing an event", e)
				r := e.Real()
				bs, err := r.MarshalText()
				if err != nil || string(bs) != e.Text() {
					h.Fail("got %q, error %v", bs, err)
				}
				c := r.Channel
				cb, err := c.MarshalText()
				if err != nil || string(cb) != e.Name+"."+hl.KindText(e.Kind) {
					h.Fail("channel prints as %q, error %v", cb, err)
				}
				var c2 channel.Channel
				if err := c2.UnmarshalText(cb); err != nil || c2 != c {
					h.Fail("channel reads back as %v, error %v", c2, err)
				}
			case 1:
				event(h, h.Str()+"."+[]string{"in", "out", "call", "IN", " in", "x", ""}[h.Intn(7)]+[]string{"", ".", "."}[h.Intn(3)]+h.Str())
			case 2:
				event(h, h.Str())
			case 3:
				event(h, fmt.Sprintf("%s%s.%s%s.%s%d%s", []string{"", " ", "\t"}[h.Intn(3)], h.ChanName(), []string{"", " "}[h.Intn(2)], mixed(h, "call"), []string{"", "\n "}[h.Intn(2)], h.Int(), []string{"", " "}[h.Intn(2)]))
			}
		})
	})
}
