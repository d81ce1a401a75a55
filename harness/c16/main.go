package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

type variant struct {
	Name             string
	Catkin, Makefile bool
	Channels         []string // overridden channels
}

type input struct {
	Config   string
	Suite    string
	Output   string
	Names    []string
	Variants []variant
	Fault    string
	HasConv  map[string]bool
}

var good = []string{"t1", "test", "test0", "batt_Low", "a b", "x.y", "...", "é名", ".hidden", "-x", "a:b", "q'q", "%s", "long_name_that_goes_on", "..a", "T1", "src", "include"}
var bad = []string{"", ".", "..", "a/b", "../x", "/abs", "../../escape", "a/", "a/../b", "./a", "//"}
var chans = []string{"alpha", "beta", "Gamma"}

func suite(h *hl.H, names []string) *stm.Suite {
	s := &stm.Suite{Types: stm.TypeMap{}, Tests: map[string]*stm.Stm{}}
	for _, n := range names {
		m := &stm.Stm{Tests: structure.NewSet("t"), Types: stm.TypeMap{}}
		k := 1 + h.Intn(3)
		for i := 0; i < k; i++ {
			st := stm.NewState(testlang.NodeID(fmt.Sprintf("s%d", i)))
			if i+1 < k || h.Intn(3) == 0 {
				c := chans[h.Intn(len(chans))]
				e := hl.MEv{Name: c, Kind: channel.Kind(h.Intn(3)), V: hl.MVal{K: 1, I: 3}}.Real()
				st.TransitionSets = transition.AddToSets(nil, e.Channel, transition.Transition{Value: e.Value, Next: testlang.NodeID(fmt.Sprintf("s%d", (i+1)%k))})
				m.Types[c], s.Types[c] = hl.TypeOf("nat"), hl.TypeOf("nat")
			}
			st.Verdict.Add(testlang.OutcomeInc, "t")
			m.States = append(m.States, st)
		}
		s.Tests[n] = m
	}
	return s
}

func config(vs []variant) string {
	var sb strings.Builder
	sb.WriteString("<rtcg-gen>")
	for _, v := range vs {
		fmt.Fprintf(&sb, `<cpp variant="%s">`, v.Name)
		for _, c := range v.Channels {
			fmt.Fprintf(&sb, `<channel name="%s" type="MyType"/>`, c)
		}
		if v.Makefile {
			sb.WriteString("<makefile/>")
		}
		if v.Catkin {
			sb.WriteString("<catkin></catkin>")
		}
		sb.WriteString("</cpp>")
	}
	sb.WriteString("</rtcg-gen>")
	return sb.String()
}

// want lists the files a successful generation writes, below the output directory.
func want(in input, s *stm.Suite) []string {
	var fs []string
	for _, v := range in.Variants {
		add := func(p ...string) { fs = append(fs, filepath.Join(append([]string{v.Name}, p...)...)) }
		add("src", "rtcg", "rtcg.cpp")
		add("src", "rtcg", "rtcg.h")
		add("src", "convert", "convert.h")
		if conv(v, s) {
			add("src", "convert", "convert.cpp")
		}
		for n := range s.Tests {
			add("src", n, "src", "main.cpp")
			if v.Catkin {
				add("src", n, "package.xml")
				add("src", n, "CMakeLists.txt")
			}
		}
		if v.Makefile {
			add("Makefile")
		}
	}
	sort.Strings(fs)
	var r []string
	for i, f := range fs {
		if i == 0 || f != fs[i-1] {
			r = append(r, f)
		}
	}
	return r
}

func conv(v variant, s *stm.Suite) bool {
	for _, c := range v.Channels {
		if _, ok := s.Types[c]; ok {
			return true
		}
	}
	return false
}

func files(t map[string]string) []string {
	var fs []string
	for f := range t {
		if !strings.HasSuffix(f, "/") {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	return fs
}

func main() {
	hl.Main("C16", func(h *hl.H) {
		h.Rounds(60, 1, func(i int) { one(h, i) })
	})
}

func one(h *hl.H, i int) {
	var in input
	for n := h.Intn(4); n > 0; n-- {
		in.Names = append(in.Names, good[h.Intn(len(good))])
	}
	badName := h.Intn(5) == 0
	if badName {
		in.Names = append(in.Names, bad[h.Intn(len(bad))])
	}
	vs := []string{"animate", "ros"}
	if h.Intn(2) == 0 {
		vs = vs[h.Intn(2):][:1]
	}
	h.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	for _, n := range vs {
		v := variant{Name: n, Catkin: h.Intn(2) == 0, Makefile: h.Intn(2) == 0}
		for _, c := range append(chans, "unused") {
			if h.Intn(5) == 0 {
				v.Channels = append(v.Channels, c)
			}
		}
		in.Variants = append(in.Variants, v)
	}
	in.Config = config(in.Variants)
	s := suite(h, in.Names)
	var js bytes.Buffer
	if err := s.Write(&js); err != nil {
		h.Fail("writing the suite failed: %v", err)
	}
	in.Suite = js.String()
	in.HasConv = map[string]bool{}
	// The work directory is deep, so that ".." stays within the scratch directory.
	d := h.Dir("p", "q", "r", "work")
	defer h.Drop(d)
	top := filepath.Dir(filepath.Dir(filepath.Dir(filepath.Dir(d))))
	hl.Put(filepath.Join(d, "stms.json"), in.Suite)
	hl.Put(filepath.Join(d, "cfg", "config.xml"), in.Config)
	convText := map[string]string{}
	missing := false
	for _, v := range in.Variants {
		has := h.Intn(8) > 0
		in.HasConv[v.Name] = has
		if has {
			convText[v.Name] = fmt.Sprintf("// %s conversion %d\n", v.Name, h.Intn(1000)) + strings.Repeat("x\n", h.Intn(3)*20000)
			hl.Put(filepath.Join(d, "cfg", v.Name, "src", "convert", "convert.cpp"), convText[v.Name])
		} else if conv(v, s) {
			missing = true
		}
	}
	in.Output = []string{"out", "o/u/t", "../out2", "."}[h.Intn(4)]
	out := filepath.Join(d, in.Output)
	// Old files that generation must leave alone or replace.
	if h.Intn(3) == 0 {
		hl.Put(filepath.Join(out, "keep.txt"), "keep")
		hl.Put(filepath.Join(out, in.Variants[0].Name, "src", "rtcg", "rtcg.h"), "old and long "+strings.Repeat("z", 9000))
	}
	expect := want(in, s)
	fault := false
	blocked := ""
	if !badName && !missing && h.Intn(3) == 0 && len(expect) > 0 {
		fault = true
		f := expect[h.Intn(len(expect))]
		blocked = filepath.Join(out, f)
		switch h.Intn(3) {
		case 0: // a directory where the file should be
			_ = os.RemoveAll(blocked)
			_ = os.MkdirAll(filepath.Join(blocked, "in-the-way"), 0o777)
			in.Fault = "directory at " + f
		case 1: // a file where a directory should be
			par := filepath.Dir(f)
			_ = os.RemoveAll(filepath.Join(out, par))
			hl.Put(filepath.Join(out, par), "in the way")
			in.Fault = "file at " + par
		case 2: // a dangling link to an impossible place
			_ = os.RemoveAll(blocked)
			_ = os.MkdirAll(filepath.Dir(blocked), 0o777)
			_ = os.Symlink("/nonexistent/dir/file", blocked)
			in.Fault = "unwritable link at " + f
		}
	}
	h.Give(top)
	before := hl.Tree(top)
	h.Case("generating code", in)
	if fault {
		h.Cases["with a fault"]++
	}
	if badName {
		h.Cases["with a bad name"]++
	}
	o := hl.Exec(d, "", time.Minute, filepath.Join(h.Bin, "rtcg-gen"), "-output", in.Output, "cfg/config.xml", "stms.json")
	after := hl.Tree(top)
	if o.Code == -2 || o.Killed {
		h.Fail("generation does not end")
	}
	if o.Code == 2 {
		h.Fail("generation crashed: %s", o.Stderr)
	}
	rel, _ := filepath.Rel(top, out)
	for p, c := range after {
		b, was := before[p]
		if was && b == c {
			continue
		}
		q := strings.TrimSuffix(p, "/")
		if q == rel || (strings.HasSuffix(p, "/") && strings.HasPrefix(rel+"/", p)) {
			continue
		}
		in := false
		for _, v := range vs {
			vd := filepath.Join(rel, v)
			in = in || q == vd || strings.HasPrefix(q, vd+"/")
		}
		if !in {
			h.Fail("%s was written, which is outside the directories of the variants below %s", p, rel)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			h.Fail("%s was removed", p)
		}
	}
	if badName || missing || fault {
		if o.Code == 0 {
			h.Fail("generation reported success, although it could not (bad name %v, missing convert.cpp %v, fault %q)", badName, missing, in.Fault)
		}
		if strings.TrimSpace(o.Stderr) == "" {
			h.Fail("generation failed without a message")
		}
		return
	}
	if o.Code != 0 {
		h.Fail("generation failed: %s", o.Stderr)
	}
	got := hl.Tree(out)
	written := map[string]bool{}
	for _, f := range expect {
		written[f] = true
		c, ok := got[f]
		if !ok {
			h.Fail("%s was not written", f)
		}
		parts := strings.Split(f, "/")
		switch parts[len(parts)-1] {
		case "convert.cpp":
			if len(parts) == 4 && parts[2] == "convert" && c != convText[parts[0]] {
				h.Fail("%s is not a copy of the file in the input directory", f)
			}
		case "rtcg.cpp", "rtcg.h":
			ref, err := os.ReadFile(filepath.Join(h.Repo, "internal/gen/cpp/embed/prelude", parts[len(parts)-1]))
			if err == nil && len(parts) == 4 && parts[2] == "rtcg" && string(ref) != c {
				h.Fail("%s is not a copy of the prelude", f)
			}
		case "main.cpp":
			if name := parts[2]; !strings.Contains(c, name) || !strings.Contains(c, "int main(") || !strings.HasSuffix(strings.TrimSpace(c), "}") {
				h.Fail("%s is not a complete program for test %q", f, name)
			}
		}
	}
	oldRel := rel + "/"
	if rel == "." {
		oldRel = ""
	}
	for _, f := range files(got) {
		old, was := before[oldRel+f]
		if !written[f] && !(was && old == got[f]) {
			h.Fail("%s was written unexpectedly", f)
		}
	}
}
