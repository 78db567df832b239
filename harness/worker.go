package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type request struct {
	Prop, Suite string
	Case        json.RawMessage
}

type response struct {
	Result Result
	Infra  string `json:",omitempty"`
}

// workerMain serves requests on fd 3, answering on fd 4.
func workerMain() {
	in := bufio.NewReaderSize(os.NewFile(3, "requests"), 1<<16)
	out := os.NewFile(4, "responses")
	base := os.Getenv("VH_SCRATCH")
	tmp := filepath.Join(base, "tmp")
	os.MkdirAll(tmp, 0777)
	os.Setenv("TMPDIR", tmp)
	gcOff := false
	env := &Env{Bin: os.Getenv("VH_BIN"), Base: base, persistent: map[string]any{}}
	if os.Getenv("VH_NETNS") == "1" {
		env.NS = loopbackUp() == nil
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			env.closePersistent()
			os.Exit(0)
		}
		var req request
		if err := json.Unmarshal(line, &req); err != nil {
			panic(err)
		}
		var resp response
		s := findSuite(req.Prop, req.Suite)
		if s == nil {
			resp.Infra = "unknown suite " + req.Prop + "/" + req.Suite
		} else if c, err := s.decode(req.Case); err != nil {
			resp.Infra = "bad case: " + err.Error()
		} else {
			if s.gcOff && !gcOff {
				gcOff = true
				debug.SetGCPercent(-1)
				debug.SetMemoryLimit(math.MaxInt64)
			} else if !gcOff {
				debug.SetMemoryLimit(2 << 30)
			}
			resp = runCase(env, s, c)
		}
		b, _ := json.Marshal(resp)
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

func runCase(env *Env, s *suite, c any) (resp response) {
	env.Dir = ""
	if !s.noDir {
		env.begin()
		defer env.end()
	}
	defer func() {
		if e := recover(); e != nil {
			if ie, ok := e.(infraError); ok {
				resp = response{Infra: ie.msg}
				return
			}
			resp = response{Result: fail("panic: %v\n%s", e, trimStack(debug.Stack()))}
		}
	}()
	return response{Result: s.check(env, c)}
}

func trimStack(b []byte) []byte {
	lines := bytes.Split(b, []byte("\n"))
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return bytes.Join(lines, []byte("\n"))
}

// loopbackUp brings up lo in the worker's own network namespace.
func loopbackUp() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var req struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(req.name[:], "lo")
	req.flags = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req))); e != 0 {
		return e
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	l.Close()
	return nil
}

// ring keeps the last bytes written to it.
type ring struct {
	mu sync.Mutex
	b  []byte
}

func (r *ring) Write(p []byte) (int, error) {
	r.mu.Lock()
	r.b = append(r.b, p...)
	if len(r.b) > 16<<10 {
		r.b = append([]byte(nil), r.b[len(r.b)-8<<10:]...)
	}
	r.mu.Unlock()
	return len(p), nil
}

func (r *ring) tail() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := string(r.b)
	if i := strings.Index(s, "\n\ngoroutine "); i >= 0 && len(s)-i > 2500 {
		s = s[:i+2500]
	}
	if len(s) > 4000 {
		s = s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

// A workerProc is a shard's handle on its worker process.
type workerProc struct {
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	outF   *os.File
	errs   *ring
	served int
	dir    string
}

type workerPool struct {
	scratch string
	netns   bool
	self    string
	w       *workerProc
	n       int
}

func (p *workerPool) start() error {
	p.n++
	dir := filepath.Join(p.scratch, fmt.Sprintf("w%d", p.n))
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	reqR, reqW, err := os.Pipe()
	if err != nil {
		return err
	}
	respR, respW, err := os.Pipe()
	if err != nil {
		return err
	}
	w := &workerProc{in: reqW, out: bufio.NewReaderSize(respR, 1<<16), outF: respR, errs: &ring{}, dir: dir}
	mk := func(ns bool) *exec.Cmd {
		cmd := exec.Command(p.self, "worker")
		cmd.Env = append(os.Environ(), "VH_SCRATCH="+dir, "GORACE=halt_on_error=1")
		cmd.ExtraFiles = []*os.File{reqR, respW}
		cmd.Stdout = w.errs
		cmd.Stderr = w.errs
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
		cmd.WaitDelay = 2 * time.Second
		if ns {
			cmd.Env = append(cmd.Env, "VH_NETNS=1")
			cmd.SysProcAttr.Cloneflags = syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET
			cmd.SysProcAttr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
			cmd.SysProcAttr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
		}
		return cmd
	}
	w.cmd = mk(p.netns)
	if err := w.cmd.Start(); err != nil {
		if !p.netns {
			return err
		}
		p.netns = false
		w.cmd = mk(false)
		if err := w.cmd.Start(); err != nil {
			return err
		}
	}
	reqR.Close()
	respW.Close()
	p.w = w
	return nil
}

func (p *workerPool) stop() {
	w := p.w
	if w == nil {
		return
	}
	p.w = nil
	w.in.Close()
	done := make(chan bool)
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	<-done
	w.outF.Close()
	removeTree(w.dir)
}

// kill ends the worker and returns how it ended.
func (p *workerPool) kill() string {
	w := p.w
	p.w = nil
	w.in.Close()
	time.AfterFunc(3*time.Second, func() { syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL) })
	err := w.cmd.Wait()
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.outF.Close()
	removeTree(w.dir)
	if err == nil {
		return "exit status 0"
	}
	return err.Error()
}

const (
	rssLimit  = 3 << 30
	wallLimit = 240 * time.Second
)

// exec runs one case in the worker.
// noShrink reports that the failure is too expensive to repeat many times.
func (p *workerPool) exec(s *suite, c []byte) (resp response, noShrink bool) {
	if p.w != nil && (p.w.served >= s.recycle || p.w.served%8 == 7 && procRSS(p.w.cmd.Process.Pid) > 700<<20) {
		p.stop()
	}
	if p.w == nil {
		if err := p.start(); err != nil {
			return response{Infra: "starting worker: " + err.Error()}, false
		}
	}
	w := p.w
	w.served++
	req, _ := json.Marshal(request{s.prop, s.name, c})
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		if _, err := w.in.Write(append(req, '\n')); err != nil {
			ch <- answer{nil, err}
			return
		}
		line, err := w.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	start := time.Now()
	cpu0 := procCPU(w.cmd.Process.Pid)
	tick := time.NewTicker(300 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case a := <-ch:
			if a.err != nil {
				how := p.kill()
				tail := w.errs.tail()
				if strings.Contains(how, "signal: killed") {
					return response{Infra: "worker was killed from outside (out of memory?): " + tail}, false
				}
				return response{Result: fail("the process running the code ended (%s):\n%s", how, tail)}, false
			}
			if err := json.Unmarshal(a.line, &resp); err != nil {
				return response{Infra: "bad worker response: " + err.Error() + string(a.line)}, false
			}
			if resp.Result.Fail != "" {
				// Whatever happened may have left the process in a strange state.
				p.stop()
			}
			return resp, false
		case <-tick.C:
			pid := w.cmd.Process.Pid
			why := ""
			if cpu := procCPU(pid) - cpu0; cpu > float64(s.cpuLimit) {
				why = fmt.Sprintf("no result after %.0f s of CPU time", cpu)
			} else if rss := procRSS(pid); rss > rssLimit {
				why = fmt.Sprintf("used %d MB of memory", rss>>20)
			} else if time.Since(start) > wallLimit {
				syscall.Kill(-pid, syscall.SIGKILL)
				p.kill()
				return response{Infra: fmt.Sprintf("no result after %v", wallLimit)}, true
			}
			if why != "" {
				syscall.Kill(-pid, syscall.SIGKILL)
				p.kill()
				return response{Result: fail("%s", why)}, true
			}
		}
	}
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	return (u + st) / 100
}

func procRSS(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return 0
	}
	i := bytes.Index(b, []byte("RssAnon:"))
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(b[i+8:]))
	if len(f) == 0 {
		return 0
	}
	kb, _ := strconv.Atoi(f[0])
	return kb << 10
}

func (e *Env) closePersistent() {
	for _, v := range e.persistent {
		if c, ok := v.(io.Closer); ok {
			c.Close()
		}
	}
}
