package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/cli"
	hl "github.com/UoY-RoboStar/rtcg/internal/zzverif/hlib"
)

const limit = 30 * time.Second

func main() {
	if len(os.Args) == 3 && os.Args[1] == "child" {
		child(os.Args[2])
	}
	hl.Main("C19", func(h *hl.H) {
		handle(h)
		h.Rounds(200, 0.1, func(int) { parse(h) })
		h.Rounds(40, 0.05, func(int) { open(h) })
		h.Rounds(40, 0.5, func(int) { tools(h) })
		h.Rounds(40, 1, func(int) { clean(h) })
	})
}

var errs = map[string]error{
	"nil":     nil,
	"bad":     cli.ErrBadArgs,
	"wrapped": fmt.Errorf("outer: %w", fmt.Errorf("inner: %w", cli.ErrBadArgs)),
	"joined":  errors.Join(errors.New("other-thing"), cli.ErrBadArgs),
	"other":   errors.New("other-thing"),
	"deep":    fmt.Errorf("outer: %w", os.ErrNotExist),
	"text":    errors.New("invalid arguments supplied, it says"),
}

func child(kind string) {
	cli.HandleError(errs[kind], func() { fmt.Fprintln(os.Stderr, "THE-USAGE") })
	fmt.Println("RETURNED")
	os.Exit(0)
}

func handle(h *hl.H) {
	self, err := os.Executable()
	if err != nil {
		return
	}
	d := h.Dir("w")
	defer h.Drop(d)
	for kind, e := range errs {
		h.Case("HandleError", kind)
		o := hl.Exec(d, "", limit, self, "child", kind)
		wantCode := 0
		if e != nil {
			wantCode = 1
		}
		if o.Code != wantCode {
			h.Fail("exit status %d, want %d", o.Code, wantCode)
		}
		if e != nil && !strings.Contains(o.Stderr, e.Error()) {
			h.Fail("no message on standard error: %q", o.Stderr)
		}
		if e == nil && (o.Stderr != "" || !strings.Contains(o.Stdout, "RETURNED")) {
			h.Fail("success is not silent: %q", o.Stderr)
		}
		if strings.Contains(o.Stderr, "THE-USAGE") != errors.Is(e, cli.ErrBadArgs) {
			h.Fail("usage shown: %v, want %v", strings.Contains(o.Stderr, "THE-USAGE"), errors.Is(e, cli.ErrBadArgs))
		}
	}
	h.Done()
}

func parse(h *hl.H) {
	max := 1 + h.Intn(4)
	args := make([]string, h.Intn(7))
	for i := range args {
		args[i] = []string{"", "-", "a", "b.csv", "--", "-h", h.Str()}[h.Intn(7)]
	}
	h.Case("ParseFileArgument", map[string]any{"args": args, "max": max})
	keep := append([]string{}, args...)
	got, err := cli.ParseFileArgument(args, max)
	if !reflect.DeepEqual(keep, args) {
		h.Fail("the arguments were changed")
	}
	switch len(args) {
	case max:
		if err != nil || got != args[max-1] {
			h.Fail("got %q, %v, want the last argument", got, err)
		}
	case max - 1:
		if err != nil || got != "-" {
			h.Fail("got %q, %v, want standard input", got, err)
		}
	default:
		if !errors.Is(err, cli.ErrBadArgs) {
			h.Fail("got %q, %v, want an argument error", got, err)
		}
	}
}

func open(h *hl.H) {
	d := h.Dir("w")
	defer h.Drop(d)
	hl.Put(filepath.Join(d, "-"), "dash")
	hl.Put(filepath.Join(d, "f"), "text")
	p := []string{"-", filepath.Join(d, "f"), filepath.Join(d, "none"), filepath.Join(d, "-"), "", filepath.Join(d, "f", "x")}[h.Intn(6)]
	h.Case("OpenFileOrStdin", p)
	r, err := cli.OpenFileOrStdin(p)
	switch {
	case p == "-":
		if err != nil || r != io.ReadCloser(os.Stdin) {
			h.Fail("got %v, %v, want standard input", r, err)
		}
	case strings.HasSuffix(p, "/f") || strings.HasSuffix(p, "/-"):
		if err != nil {
			h.Fail("got %v", err)
		}
		bs, _ := io.ReadAll(r)
		_ = r.Close()
		if want := map[bool]string{true: "text", false: "dash"}[strings.HasSuffix(p, "f")]; string(bs) != want {
			h.Fail("read %q, want %q", bs, want)
		}
	default:
		if err == nil {
			h.Fail("no error")
		}
	}
}

const (
	traces   = "n1: a.in.1, b.out.Low\nb.out\n"
	badTrace = "a\n"
	config   = `<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>`
	stms     = `{"types":{},"tests":{"t1":{"states":[{"id":"initial","verdicts":{"t1":"inc"}}],"types":{},"tests":["t1"]}}}`
)

const tree = `{"t1":{"tests":["t1"],"outcome":"unset","next":[{"tests":["t1"],"outcome":"pass","event":"a.in.1","next":[{"tests":["t1"],"outcome":"fail"}]}]}}`

func setup(d string) {
	hl.Put(filepath.Join(d, "traces"), traces)
	hl.Put(filepath.Join(d, "bad"), badTrace)
	hl.Put(filepath.Join(d, "tree"), tree)
	hl.Put(filepath.Join(d, "stms"), stms)
	hl.Put(filepath.Join(d, "config.xml"), config)
}

type call struct {
	Tool, Stdin string
	Args        []string
	Dir         string
}

func tools(h *hl.H) {
	d := h.Dir("p", "q", "w")
	defer h.Drop(d)
	setup(d)
	// A file called "-" must not shadow standard input.
	hl.Put(filepath.Join(d, "-"), "this is not any input")
	h.Give(d)
	tool := []string{"rtcg-read-traces", "rtcg-make-stms", "rtcg-gen"}[h.Intn(3)]
	file := map[string]string{"rtcg-read-traces": "traces", "rtcg-make-stms": "tree", "rtcg-gen": "stms"}[tool]
	text := map[string]string{"rtcg-read-traces": traces, "rtcg-make-stms": tree, "rtcg-gen": stms}[tool]
	other := "this is not any input"
	c := call{Tool: tool, Stdin: other, Dir: d}
	wantErr, usage := false, false
	if tool == "rtcg-gen" {
		c.Args = append(c.Args, "config.xml")
	}
	switch h.Intn(8) {
	case 0, 1:
		c.Args = append(c.Args, file)
	case 2:
		c.Stdin = text
	case 3:
		c.Args, c.Stdin = append(c.Args, "-"), text
	case 4: // Too many.
		c.Args, c.Stdin = append(c.Args, file, file), text
		if h.Intn(2) == 0 {
			c.Args = append(c.Args, "-")
		}
		wantErr, usage = true, true
	case 5:
		c.Args = append(c.Args, []string{"none", "no/such", "bad", ".", ""}[h.Intn(5)])
		wantErr = true
		if c.Args[len(c.Args)-1] == "" && tool == "rtcg-gen" {
			return
		}
	case 6:
		wantErr = true
	case 7:
		if tool != "rtcg-gen" {
			c.Args, wantErr = append(c.Args, "config.xml"), true
			break
		}
		switch h.Intn(3) {
		case 0:
			c.Args, wantErr, usage = nil, true, true
		case 1:
			c.Args, wantErr = []string{"none.xml", file}, true
		case 2:
			c.Args, wantErr = []string{"traces", file}, true
		}
	}
	h.Case("running a tool", c)
	o := hl.Exec(d, c.Stdin, limit, append([]string{filepath.Join(h.Bin, tool)}, c.Args...)...)
	want := 0
	if wantErr {
		want = 1
	}
	if o.Code != want {
		h.Fail("exit status %d, want %d; standard error: %q", o.Code, want, o.Stderr)
	}
	if wantErr && strings.TrimSpace(o.Stderr) == "" {
		h.Fail("no message on standard error")
	}
	if got := strings.Contains(strings.ToLower(o.Stderr), "usage:"); got != usage {
		h.Fail("usage shown: %v, want %v; standard error: %q", got, usage, o.Stderr)
	}
	if !wantErr && tool != "rtcg-gen" && !strings.Contains(o.Stdout, "a.in.1") && !strings.Contains(o.Stdout, "initial") {
		h.Fail("the input was not processed: %q", o.Stdout)
	}
	if _, err := os.Stat(filepath.Join(d, "out", "animate", "src", "t1", "src", "main.cpp")); tool == "rtcg-gen" && !wantErr && err != nil {
		h.Fail("the input was not processed: %v", err)
	}
}

// clean tries -clean with directories inside the scratch directory only.
func clean(h *hl.H) {
	d := h.Dir("p", "q", "r", "w")
	defer h.Drop(d)
	setup(d)
	r := filepath.Dir(d)
	q := filepath.Dir(r)
	top := filepath.Dir(q)
	for _, x := range []string{filepath.Join(d, "out"), filepath.Join(d, "sub", "deep"), filepath.Join(r, "sibling"), filepath.Join(top, "far")} {
		hl.Put(filepath.Join(x, "old.txt"), "old")
	}
	hl.Put(filepath.Join(q, "precious.txt"), "precious")
	link := func(to, at string) {
		if err := os.Symlink(to, at); err != nil {
			h.Done()
			panic(err)
		}
	}
	link(d, filepath.Join(r, "tod"))
	link(q, filepath.Join(d, "toq"))
	link("..", filepath.Join(d, "up"))
	link(filepath.Join(r, "sibling"), filepath.Join(d, "tosib"))
	h.Give(top)
	outs := []string{"out", "out/", "./out", "sub", "sub/deep", "../sibling", filepath.Join(d, "out"), filepath.Join(top, "far"), "new", "new/er", "../w/out", "sub/../out",
		".", "", "./", "..", "../..", "../../..", "../w", "sub/..", d, r, q, top, d + "/", "../../r", "../tod", filepath.Join(r, "tod"), "toq", "up", "up/.", "toq/r/w", "../tod/", "tosib", "../../r/w", "out/../../w"}
	out := outs[h.Intn(len(outs))]
	dir := d
	if h.Intn(4) == 0 {
		dir = filepath.Join(r, "tod") // reach the working directory through a link
	}
	c := call{Tool: "rtcg-gen", Args: []string{"-clean", "-output", out, "config.xml", "stms"}, Dir: dir}
	h.Case("cleaning", c)
	target := filepath.Clean(out)
	if !filepath.IsAbs(target) {
		target = filepath.Join(d, target)
	}
	real, err := filepath.EvalSymlinks(target)
	danger := err == nil && (real == d || strings.HasPrefix(d, real+"/"))
	before := hl.Tree(top)
	o := hl.Exec(dir, "", limit, append([]string{filepath.Join(h.Bin, c.Tool)}, c.Args...)...)
	after := hl.Tree(top)
	if danger {
		for p := range before {
			if _, ok := after[p]; !ok {
				h.Fail("%s was removed although the directory to clean contains the working directory", p)
			}
		}
		if o.Code != 1 || strings.TrimSpace(o.Stderr) == "" {
			h.Fail("cleaning a directory containing the working directory: exit status %d, standard error %q", o.Code, o.Stderr)
		}
		return
	}
	if o.Code != 0 {
		h.Fail("exit status %d: %s", o.Code, o.Stderr)
	}
	rel, _ := filepath.Rel(top, target)
	for p := range before {
		if _, ok := after[p]; !ok && p != rel && !strings.HasPrefix(p, rel+"/") {
			h.Fail("%s was removed, which is outside %s", p, rel)
		}
	}
	if _, err := os.Lstat(filepath.Join(target, "old.txt")); err == nil {
		h.Fail("the old contents of %s were kept", out)
	}
	if _, err := os.Stat(filepath.Join(target, "animate", "src", "t1", "src", "main.cpp")); err != nil {
		h.Fail("nothing was generated: %v", err)
	}
}
