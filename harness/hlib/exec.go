package hlib

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Nobody is the unprivileged user that runs programs that write files.
const Nobody = 65534

var credOK = func() bool {
	c := exec.Command("/bin/true")
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: Nobody, Gid: Nobody}}
	return os.Geteuid() == 0 && c.Run() == nil
}()

// Out is the outcome of a program run.
type Out struct {
	Code           int
	Stdout, Stderr string
	Killed         bool
}

// Exec runs a program in dir, as the unprivileged user when possible.
func Exec(dir, stdin string, limit time.Duration, argv ...string) Out {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, argv[0], argv[1:]...)
	c.Dir = dir
	c.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &limited{b: &o}, &limited{b: &e}
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "TMPDIR=" + os.TempDir(), "LC_ALL=C"}
	c.WaitDelay = time.Second
	if credOK {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: Nobody, Gid: Nobody}}
	}
	err := c.Run()
	r := Out{Stdout: o.String(), Stderr: e.String()}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		r.Code = ee.ExitCode()
		r.Killed = ctx.Err() != nil
	default:
		if ctx.Err() == nil && !errors.Is(err, exec.ErrWaitDelay) {
			panic(trouble("cannot run " + argv[0] + ": " + err.Error()))
		}
		r.Code, r.Killed = -2, ctx.Err() != nil
	}
	return r
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// Dir makes a fresh scratch directory, deep enough for "..", owned by the unprivileged user.
func (h *H) Dir(parts ...string) string {
	h.dirs++
	base := filepath.Join(h.Scratch, "d"+itoa(h.dirs))
	d := filepath.Join(append([]string{base}, parts...)...)
	if err := os.MkdirAll(d, 0o777); err != nil {
		panic(trouble("scratch: " + err.Error()))
	}
	h.Give(h.Scratch)
	h.Give(base)
	return d
}

// Give hands a tree to the unprivileged user.
func (h *H) Give(root string) {
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && credOK {
			_ = os.Lchown(p, Nobody, Nobody)
		}
		if err == nil && i.IsDir() {
			_ = os.Chmod(p, 0o777)
		}
		return nil
	})
}

// Drop removes the scratch directory holding d.
func (h *H) Drop(d string) {
	rel, err := filepath.Rel(h.Scratch, d)
	if err != nil || strings.HasPrefix(rel, "..") || h.Scratch == "" {
		return
	}
	_ = os.RemoveAll(filepath.Join(h.Scratch, strings.Split(rel, string(filepath.Separator))[0]))
}

// Tree lists every file below root with its contents; directories end with a slash.
func Tree(root string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		switch {
		case err != nil:
			m[rel] = "unreadable"
		case i.IsDir():
			if rel != "." {
				m[rel+"/"] = ""
			}
		case i.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "-> " + t
		default:
			bs, _ := os.ReadFile(p)
			m[rel] = string(bs)
		}
		return nil
	})
	return m
}

// Put writes a file, with its directories.
func Put(path, text string) {
	_ = os.MkdirAll(filepath.Dir(path), 0o777)
	if err := os.WriteFile(path, []byte(text), 0o666); err != nil {
		panic(trouble("scratch: " + err.Error()))
	}
}

func itoa(i int) string {
	s := ""
	for ; i > 0 || s == ""; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

// trouble is a failure of the harness itself.
type trouble string
