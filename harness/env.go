package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// An Env is what a check has at hand in a worker process.
type Env struct {
	Bin  string // directory with cgrep, cindex, csearch, csweb
	Base string // worker's scratch directory; os.TempDir() lies below it
	Dir  string // fresh scratch directory for the current case
	NS   bool   // worker has its own loopback network
	n    int

	persistent map[string]any // kept between cases of one worker
}

func (e *Env) begin() {
	e.n++
	e.Dir = filepath.Join(e.Base, fmt.Sprintf("c%d", e.n))
	if err := os.Mkdir(e.Dir, 0777); err != nil {
		panic(err)
	}
}

func (e *Env) end() {
	if e.Dir != "" && strings.HasPrefix(e.Dir, e.Base+"/") {
		removeTree(e.Dir)
	}
}

// removeTree removes a scratch tree, including directories without permissions.
func removeTree(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if info != nil && info.IsDir() {
			os.Chmod(p, 0700)
		}
		return nil
	})
	os.RemoveAll(dir)
}

// A Proc describes one execution of a command.
type Proc struct {
	Out, Err []byte
	Code     int // exit status, or -1 if ended by a signal
	Signal   syscall.Signal
	Timeout  bool
}

func (p *Proc) String() string {
	return fmt.Sprintf("exit %d signal %v timeout %v stdout %q stderr %q", p.Code, p.Signal, p.Timeout, clip(string(p.Out)), clip(string(p.Err)))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

type runOpt struct {
	dir   string
	env   []string
	stdin []byte
	limit time.Duration
	attr  *syscall.SysProcAttr
	files int // limit on open files, 0: none
}

// run executes argv with a minimal environment.
func (e *Env) run(o runOpt, argv ...string) *Proc {
	if o.limit == 0 {
		o.limit = 150 * time.Second
	}
	if o.files > 0 {
		argv = limitFiles(o.files, argv)
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = e.Dir
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, o.env...)
	cmd.SysProcAttr = o.attr
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	cmd.Stdin = bytes.NewReader(o.stdin)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	p := &Proc{Out: out.Bytes(), Err: errb.Bytes()}
	if ctx.Err() != nil {
		p.Timeout = true
		if cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); cpu < o.limit/4 {
			infra("%v did not finish within %v (%v of CPU time)", argv, o.limit, cpu)
		}
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(infraError{fmt.Sprintf("running %v: %v", argv, err)})
		}
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			p.Code = -1
			p.Signal = ws.Signal()
		} else {
			p.Code = ws.ExitStatus()
		}
	}
	return p
}

// limitFiles has argv run with at most n open files.
func limitFiles(n int, argv []string) []string {
	return append([]string{"/bin/sh", "-c", fmt.Sprintf("ulimit -n %d && exec \"$@\"", n), "sh"}, argv...)
}

// fewFiles is the number of files that a command which handles many files may
// have open at a time.
const fewFiles = 256

// An infraError is a failure of the machinery, not of the code under test.
type infraError struct{ msg string }

func infra(format string, args ...any) { panic(infraError{fmt.Sprintf(format, args...)}) }

func must(err error) {
	if err != nil {
		panic(infraError{err.Error()})
	}
}

func (e *Env) tool(name string) string { return filepath.Join(e.Bin, name) }

func writeFile(name string, data string) {
	must(os.MkdirAll(filepath.Dir(name), 0777))
	must(os.WriteFile(name, []byte(data), 0666))
}
