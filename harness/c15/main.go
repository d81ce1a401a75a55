package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

func field(h *hl.H) string {
	switch h.Intn(5) {
	case 0, 1:
		return ""
	case 2:
		return []string{"${NAME}", "x-${NAME}", "${NAME}${NAME}", "$NAME", "${name}", "$${NAME}}", "${NAM${NAME}E}", "a ${NAME} b ${NAME}", "${NAME", "{NAME}", "Package for ${NAME}", "Proprietary", "0.1.0", " "}[h.Intn(14)]
	default:
		return h.Str()
	}
}

func list(h *hl.H) []string {
	var l []string
	for i := h.Intn(4); i > 0; i-- {
		l = append(l, []string{"roscpp", "std_msgs", "x", "${NAME}", "a_b", "z9"}[h.Intn(6)])
	}
	return l
}

func pkg(h *hl.H) cfg.Package {
	p := cfg.Package{Format: h.Intn(4), Name: field(h), Version: field(h), Description: field(h), License: field(h),
		Maintainer: cfg.Maintainer{Email: field(h), Name: field(h)}, BuildtoolDepends: list(h), Depends: list(h)}
	p.XMLName = xml.Name{Local: "package"}
	return p
}

func def(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func auto(p cfg.Package) cfg.Package {
	p.Format = 2
	p.Name = def(p.Name, "${NAME}")
	p.Version = def(p.Version, "0.1.0")
	p.Description = def(p.Description, "Package for ${NAME}")
	p.Maintainer.Name = def(p.Maintainer.Name, "${NAME} Maintainers")
	p.Maintainer.Email = def(p.Maintainer.Email, "email@example.com")
	p.License = def(p.License, "Proprietary")
	return p
}

func sub(s, n string) string { return strings.Join(strings.Split(s, "${NAME}"), n) }

func expand(p cfg.Package, n string) cfg.Package {
	p.Name, p.Description, p.License = sub(p.Name, n), sub(p.Description, n), sub(p.License, n)
	p.Maintainer.Name, p.Maintainer.Email = sub(p.Maintainer.Name, n), sub(p.Maintainer.Email, n)
	return p
}

func clone(p cfg.Package) cfg.Package {
	if p.Depends != nil {
		p.Depends = append([]string{}, p.Depends...)
	}
	if p.BuildtoolDepends != nil {
		p.BuildtoolDepends = append([]string{}, p.BuildtoolDepends...)
	}
	return p
}

var testNames = []string{"t1", "t2", "a_b", "x", "test0", "Long_Test_Name", "n9", "foo0", "foo", "foo00"}

func main() {
	hl.Main("C15", func(h *hl.H) {
		h.Rounds(500, 0.5, func(int) {
			p := pkg(h)
			orig := clone(p)
			h.Case("auto-filling package metadata", orig)
			p.Autofill()
			if !reflect.DeepEqual(p, auto(orig)) {
				h.Fail("got %#v, want %#v", p, auto(orig))
			}
			p.Autofill()
			if !reflect.DeepEqual(p, auto(orig)) {
				h.Fail("filling twice gives %#v", p)
			}
			n := h.Str()
			if h.Intn(2) == 0 {
				p = clone(orig)
			}
			orig = clone(p)
			h.Case("expanding package metadata", map[string]any{"package": orig, "name": n})
			p.Expand(n)
			if !reflect.DeepEqual(p, expand(orig, n)) {
				h.Fail("got %#v, want %#v", p, expand(orig, n))
			}
		})
		run := 0
		h.Rounds(12, 1, func(int) {
			run++
			dir := filepath.Join(h.Scratch, fmt.Sprint("c15-", run))
			defer os.RemoveAll(dir)
			conf := &cfg.Config{}
			orig := cfg.Package{}
			if h.Intn(4) > 0 {
				p := pkg(h)
				clean := func(s string) string {
					return strings.Map(func(r rune) rune {
						if r < ' ' || r == 0x85 || r == 0x2028 {
							return '_'
						}
						return r
					}, s)
				}
				p.Name, p.Version, p.Description, p.License = clean(p.Name), clean(p.Version), clean(p.Description), clean(p.License)
				p.Maintainer.Name, p.Maintainer.Email = clean(p.Maintainer.Name), clean(p.Maintainer.Email)
				orig = clone(p)
				conf.Package = &p
			}
			suite := &stm.Suite{Tests: map[string]*stm.Stm{}}
			for i := h.Intn(6); i > 0; i-- {
				n := testNames[h.Intn(len(testNames))]
				suite.Tests[n] = &stm.Stm{}
				if err := os.MkdirAll(filepath.Join(dir, "src", n), 0o755); err != nil {
					panic(err)
				}
			}
			h.Case("generating package metadata", map[string]any{"package": orig, "tests": len(suite.Tests)})
			g, err := catkin.New(conf, gencommon.DirSet{Input: "in", Output: dir})
			if err != nil {
				h.Fail("error %v", err)
			}
			for round := 0; round < 2; round++ {
				if err := g.OnSuite(suite).Generate(); err != nil {
					h.Fail("error %v", err)
				}
				for n := range suite.Tests {
					bs, err := os.ReadFile(filepath.Join(dir, "src", n, "package.xml"))
					if err != nil {
						h.Fail("test %q: %v", n, err)
					}
					var got cfg.Package
					if err := xml.Unmarshal(bs, &got); err != nil {
						h.Fail("test %q: bad XML %q: %v", n, bs, err)
					}
					want := expand(auto(orig), n)
					want.XMLName = got.XMLName
					if !reflect.DeepEqual(got, want) {
						h.Fail("test %q (round %d): got %#v, want %#v", n, round, got, want)
					}
					cm, err := os.ReadFile(filepath.Join(dir, "src", n, "CMakeLists.txt"))
					if err != nil || !strings.Contains(string(cm), "project("+want.Name+")") {
						h.Fail("test %q: CMakeLists.txt is for another project: %s", n, cm)
					}
				}
			}
		})
	})
}
