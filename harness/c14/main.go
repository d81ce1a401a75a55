package main

import (
	"reflect"

	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func check(h *hl.H, c *cfg.Config, types map[string]string) {
	h.Case("resolving channels", map[string]any{"channels": c.Channels, "includes": c.Includes, "types": types})
	tm := stm.TypeMap{}
	for k, t := range types {
		tm[k] = hl.TypeOf(t)
	}
	chans := append([]cfg.Channel{}, c.Channels...)
	incs := append([]cfg.Include{}, c.Includes...)
	last := map[string]string{}
	for _, x := range chans {
		last[x.Name] = x.Type
	}
	if got := c.ChannelMap(); len(got) != len(last) || (len(last) > 0 && !reflect.DeepEqual(got, last)) {
		h.Fail("channel map is %v, want %v", got, last)
	}
	ctx := c.Process(tm)
	if len(ctx.ChannelTypes) != len(types) {
		h.Fail("%d channel types, want %d", len(ctx.ChannelTypes), len(types))
	}
	conv := false
	for k := range types {
		ct, ok := ctx.ChannelTypes[k]
		if !ok || !reflect.DeepEqual(ct.Base, tm[k]) {
			h.Fail("channel %q has base %v, want %v", k, ct.Base, tm[k])
		}
		o, has := last[k]
		conv = conv || has
		if ct.Override != o || ct.HasOverride() != (o != "") {
			h.Fail("channel %q has override %q, want %q", k, ct.Override, o)
		}
	}
	if ctx.HasConversion != conv {
		h.Fail("conversion wanted=%v, want %v", ctx.HasConversion, conv)
	}
	if len(ctx.Includes) != len(incs) || (len(incs) > 0 && !reflect.DeepEqual(ctx.Includes, incs)) {
		h.Fail("includes are %v, want %v", ctx.Includes, incs)
	}
	if len(chans) > 0 && !reflect.DeepEqual(c.Channels, chans) {
		h.Fail("the configuration was changed")
	}
}

func main() {
	hl.Main("C14", func(h *hl.H) {
		ts := []string{"()", "enum", "nat", "int", "real"}
		check(h, cfg.New(cfg.VariantAnimate), nil)
		check(h, cfg.New(cfg.VariantRos, cfg.WithChannel("a", "T"), cfg.WithChannel("a", "U")), map[string]string{"a": "int"})
		check(h, cfg.New(cfg.VariantRos, cfg.WithChannel("b", "T")), map[string]string{"a": "int"})
		check(h, cfg.New(cfg.VariantRos, cfg.WithChannel("a", "T"), cfg.WithChannel("a", "")), map[string]string{"a": "int"})
		check(h, cfg.New(cfg.VariantRos, cfg.WithChannel("a", "")), map[string]string{"a": "int"})
		h.Rounds(500, 1, func(int) {
			c := cfg.New(cfg.Variant(h.Intn(2)))
			for i := h.Len() % 30; i > 0; i-- {
				n, t := []string{"a", "b", "c", "d", "A", ""}[h.Intn(6)], []string{"", "T", "U", "std::string", "x y"}[h.Intn(5)]
				if h.Intn(2) == 0 {
					cfg.WithChannel(n, t)(c)
				} else {
					c.Channels = append(c.Channels, cfg.Channel{Name: n, Type: t})
				}
			}
			for i := h.Len() % 10; i > 0; i-- {
				c.Includes = append(c.Includes, cfg.Include{Src: h.Str(), IsSystem: h.Intn(2) == 0})
			}
			types := map[string]string{}
			for i := h.Intn(6); i > 0; i-- {
				types[[]string{"a", "b", "c", "d", "e", "A", "a0"}[h.Intn(7)]] = ts[h.Intn(5)]
			}
			check(h, c, types)
		})
	})
}
