package main

import (
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// A tracer runs a command of its own and stops it at system calls that concern
// files below given directories, to look around, to make the call fail, or to
// kill the process.

type fileOp struct {
	kind  string // open, write, copy, read, stat, mmap, rename, unlink, other
	path  string
	write bool // open: for writing
}

func (o fileOp) String() string { return o.kind + " " + o.path }

// fault says what to do at one operation.
type opFault struct {
	kill    bool // before the call
	torn    bool // shorten a write to half, then kill after it (with kill) or go on
	errno   syscall.Errno
	forever bool // also at every later operation of the same kind
}

type tracer struct {
	dirs   []string                      // interesting
	before func(i int, o fileOp) opFault // at entry of the ith interesting operation
	after  func(i int, o fileOp)         // at its exit (not after a kill)
}

type syscallInfo struct {
	Op    uint8
	_     [3]uint8
	Arch  uint32
	IP    uint64
	SP    uint64
	Nr    uint64 // entry: number; exit: result
	Args  [6]uint64
	extra [16]uint8
}

func getSyscallInfo(tid int) (*syscallInfo, error) {
	var si syscallInfo
	_, _, e := syscall.Syscall6(syscall.SYS_PTRACE, 0x420e, uintptr(tid), unsafe.Sizeof(si), uintptr(unsafe.Pointer(&si)), 0, 0)
	if e != 0 {
		return nil, e
	}
	return &si, nil
}

func peekString(tid int, addr uintptr) string {
	var s []byte
	buf := make([]byte, 8)
	for len(s) < 4096 {
		n := 8 - int(addr%8)
		if _, err := syscall.PtracePeekData(tid, addr, buf[:n]); err != nil {
			return string(s)
		}
		for _, c := range buf[:n] {
			if c == 0 {
				return string(s)
			}
			s = append(s, c)
		}
		addr += uintptr(n)
	}
	return string(s)
}

type thread struct {
	in    bool // between entry and exit
	op    *fileOp
	idx   int
	f     opFault
	fake  bool
	nr    uint64
	args  [6]uint64
	path  string
	start bool
}

// run executes argv; it returns after all its threads have ended.
func (tr *tracer) run(e *Env, o runOpt, argv ...string) *Proc {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	outf, err := os.CreateTemp(e.Dir, "out")
	must(err)
	errf, err := os.CreateTemp(e.Dir, "err")
	must(err)
	defer outf.Close()
	defer errf.Close()
	defer os.Remove(outf.Name())
	defer os.Remove(errf.Name())
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = o.dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, o.env...)
	cmd.Stdout, cmd.Stderr = outf, errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Setpgid: true, Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	pid := cmd.Process.Pid
	var late atomic.Bool
	watch := time.AfterFunc(150*time.Second, func() { late.Store(true); syscall.Kill(pid, syscall.SIGKILL) })
	defer watch.Stop()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
		infra("waiting for %v: %v, status %x", argv, err, ws)
	}
	const traceSysGood, traceClone, exitKill = 1, 8, 1 << 20
	must(syscall.PtraceSetOptions(pid, traceSysGood|traceClone|exitKill))
	must(syscall.PtraceSyscall(pid, 0))

	threads := map[int]*thread{pid: {start: true}}
	fds := map[uint64]string{}
	under := func(p string) bool {
		for _, d := range tr.dirs {
			if strings.HasPrefix(p, d+"/") {
				return true
			}
		}
		return false
	}
	abs := func(p string) string {
		if !strings.HasPrefix(p, "/") {
			p = cmd.Dir + "/" + p
		}
		return p
	}
	next := 0
	killed := false
	forever := map[string]opFault{}
	kill := func() {
		killed = true
		syscall.Kill(pid, syscall.SIGKILL)
	}
	p := &Proc{Code: -2}
	for p.Code == -2 {
		tid, err := syscall.Wait4(-pid, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			infra("wait4 for %v: %v", argv, err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
			if tid == pid {
				if ws.Exited() {
					p.Code = ws.ExitStatus()
				} else {
					p.Code, p.Signal = -1, ws.Signal()
				}
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		th := threads[tid]
		if th == nil {
			th = &thread{}
			threads[tid] = th
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80:
			si, err := getSyscallInfo(tid)
			if err != nil {
				break // being killed
			}
			switch si.Op {
			case 1:
				th.in, th.op, th.f, th.fake, th.path = true, nil, opFault{}, false, ""
				th.nr, th.args = si.Nr, si.Args
				op := tr.classify(tid, th, fds, abs)
				if op == nil || !under(op.path) || killed {
					break
				}
				th.op, th.idx = op, next
				next++
				f := opFault{}
				if tr.before != nil {
					f = tr.before(th.idx, *op)
				}
				if ff, ok := forever[op.kind]; ok && !f.kill {
					f = ff
				}
				if f.forever {
					forever[op.kind] = f
				}
				th.f = f
				switch {
				case f.torn:
					tr.shorten(tid, th)
				case f.kill:
					kill()
				case f.errno != 0:
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Orig_rax = ^uint64(0)
						syscall.PtraceSetRegs(tid, &regs)
						th.fake = true
					}
				}
			case 2:
				if th.fake {
					var regs syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &regs) == nil {
						regs.Rax = uint64(-int64(th.f.errno))
						syscall.PtraceSetRegs(tid, &regs)
					}
				} else if th.in {
					switch rval := int64(si.Nr); th.nr {
					case syscall.SYS_OPENAT, syscall.SYS_OPEN:
						if rval >= 0 {
							fds[uint64(rval)] = th.path
						}
					case syscall.SYS_CLOSE:
						delete(fds, th.args[0])
					}
				}
				if th.in && th.op != nil && !killed {
					if th.f.torn && th.f.kill {
						kill()
					} else if tr.after != nil {
						tr.after(th.idx, *th.op)
					}
				}
				th.in = false
			}
		case s == syscall.SIGTRAP:
			// exec or clone event
		case s == syscall.SIGSTOP && !th.start:
			th.start = true
		default:
			sig = int(s)
		}
		th.start = true
		syscall.PtraceSyscall(tid, sig)
	}
	for len(threads) > 0 {
		tid, err := syscall.Wait4(-pid, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			break
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
		}
	}
	cmd.Process.Release()
	if late.Load() {
		infra("%v did not finish under the tracer", argv)
	}
	p.Out, _ = os.ReadFile(outf.Name())
	p.Err, _ = os.ReadFile(errf.Name())
	return p
}

// shorten halves the length of a write.
func (tr *tracer) shorten(tid int, th *thread) {
	var regs syscall.PtraceRegs
	if syscall.PtraceGetRegs(tid, &regs) != nil {
		return
	}
	switch th.nr {
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		regs.Rdx = (regs.Rdx + 1) / 2
	case 326: // copy_file_range
		regs.R8 = min((regs.R8+1)/2, 1000)
	default:
		return
	}
	syscall.PtraceSetRegs(tid, &regs)
}

// classify names the file operation of a system call.
func (tr *tracer) classify(tid int, th *thread, fds map[uint64]string, abs func(string) string) *fileOp {
	a := th.args
	str := func(i int) string { return abs(peekString(tid, uintptr(a[i]))) }
	fd := func(kind string, i int) *fileOp {
		if p, ok := fds[a[i]]; ok {
			return &fileOp{kind: kind, path: p}
		}
		return nil
	}
	switch th.nr {
	case syscall.SYS_OPENAT:
		th.path = str(1)
		return &fileOp{"open", th.path, a[2]&3 != 0}
	case syscall.SYS_OPEN:
		th.path = str(0)
		return &fileOp{"open", th.path, a[1]&3 != 0}
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV:
		return fd("write", 0)
	case 326: // copy_file_range
		return fd("copy", 2)
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		return fd("read", 0)
	case syscall.SYS_FSTAT:
		return fd("stat", 0)
	case syscall.SYS_NEWFSTATAT:
		return &fileOp{"stat", str(1), false}
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		return &fileOp{"stat", str(0), false}
	case syscall.SYS_MMAP:
		if int32(a[4]) >= 0 {
			return fd("mmap", 4)
		}
	case syscall.SYS_RENAME:
		return &fileOp{"rename", str(0), false}
	case syscall.SYS_RENAMEAT, 316:
		return &fileOp{"rename", str(1), false}
	case syscall.SYS_UNLINK:
		return &fileOp{"unlink", str(0), false}
	case syscall.SYS_UNLINKAT:
		return &fileOp{"unlink", str(1), false}
	case syscall.SYS_FTRUNCATE, syscall.SYS_FSYNC, 75, 285: // fdatasync, fallocate
		return fd("other", 0)
	case syscall.SYS_TRUNCATE:
		return &fileOp{"other", str(0), false}
	}
	return nil
}
