// Command vh decides the properties in /verif/properties.jsonl by generated-input search.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check PROPERTY | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "shard":
		shardMain(os.Args[2])
	case "check":
		os.Exit(checkMain(os.Args[2]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		for _, s := range suites {
			fmt.Println(s.prop, s.name, s.quick, s.thorough)
		}
	default:
		if f := commands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		fmt.Fprintln(os.Stderr, "vh: unknown command", os.Args[1])
		os.Exit(3)
	}
}

// commands are auxiliary subcommands (helpers that checks execute as processes).
var commands = map[string]func([]string){}

type shardJob struct {
	Prop, Suite string
	Shard       int
	Cases       int
	Fixed       []int // indexes of fixed cases to run first
	Seed        uint64
	Scratch     string
	Deadline    time.Time
	Shrink      time.Duration
	OutFile     string
	NetNS       bool
}

type shardOut struct {
	Evaluations int
	Invalid     int
	Nontrivial  map[string]bool // hashes of non-trivial cases
	Labels      map[string]int
	Samples     []json.RawMessage
	FailCase    json.RawMessage `json:",omitempty"`
	Fail        string          `json:",omitempty"`
	Infra       string          `json:",omitempty"`
	Truncated   bool            // stopped at the deadline
	WallS       float64
}

// nullTB receives rapid's verdicts.
type nullTB struct {
	failed bool
	log    []string
}

type failNow struct{}

func (t *nullTB) Helper()      {}
func (t *nullTB) Name() string { return "vh" }
func (t *nullTB) Logf(f string, a ...any) {
	if len(t.log) < 200 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *nullTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *nullTB) Skipf(f string, a ...any)  { panic("skip") }
func (t *nullTB) Skip(a ...any)             { panic("skip") }
func (t *nullTB) SkipNow()                  { panic("skip") }
func (t *nullTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *nullTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *nullTB) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *nullTB) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *nullTB) FailNow()                  { t.failed = true; panic(failNow{}) }
func (t *nullTB) Fail()                     { t.failed = true }
func (t *nullTB) Failed() bool              { return t.failed }

func shardMain(jobFile string) {
	var job shardJob
	b, err := os.ReadFile(jobFile)
	must(err)
	must(json.Unmarshal(b, &job))
	s := findSuite(job.Prop, job.Suite)
	out := shardOut{Nontrivial: map[string]bool{}, Labels: map[string]int{}}
	pool := &workerPool{scratch: job.Scratch, self: os.Args[0], netns: job.NetNS}
	start := time.Now()

	var failing bool // a failure was seen; everything after is shrinking
	var stopped bool // infrastructure error or unshrinkable failure: do nothing more
	record := func(c []byte, r Result) {
		if r.Invalid {
			out.Invalid++
			return
		}
		out.Evaluations++
		for _, l := range r.Labels {
			out.Labels[l]++
		}
		if r.Nontrivial {
			key := r.Key
			if key == "" {
				key = string(c)
			}
			h := sha256.Sum256([]byte(key))
			hs := fmt.Sprintf("%x", h[:8])
			if !out.Nontrivial[hs] && len(out.Samples) < 3 && len(c) < 1500 {
				out.Samples = append(out.Samples, append(json.RawMessage(nil), c...))
			}
			out.Nontrivial[hs] = true
		}
	}
	// one runs a case and reports whether it failed.
	one := func(c []byte) bool {
		resp, noShrink := pool.exec(s, c)
		if resp.Infra != "" {
			out.Infra = resp.Infra
			out.FailCase = c
			stopped = true
			return false
		}
		if !failing {
			record(c, resp.Result)
		}
		if resp.Result.Fail != "" {
			failing = true
			out.Fail = resp.Result.Fail
			out.FailCase = append(json.RawMessage(nil), c...)
			if noShrink {
				stopped = true
			}
			return true
		}
		return false
	}

	for _, i := range job.Fixed {
		if one(encodeCase(s.fixed[i])) {
			stopped = true
			break
		}
	}

	if !stopped && s.gen != nil && job.Cases > 0 {
		testing.Init()
		flag.CommandLine.Parse([]string{
			"-rapid.checks=" + strconv.Itoa(job.Cases),
			"-rapid.seed=" + strconv.FormatUint(job.Seed|1, 10),
			"-rapid.nofailfile",
			"-rapid.shrinktime=" + job.Shrink.String(),
		})
		tb := &nullTB{}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(failNow); !ok {
						out.Infra = fmt.Sprint("harness panic: ", e)
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if stopped {
					if failing {
						t.Fatalf("violation")
					}
					return
				}
				if !failing && time.Now().After(job.Deadline) {
					out.Truncated = true
					return
				}
				c := s.gen(t)
				if one(encodeCase(c)) {
					t.Fatalf("violation")
				}
			})
		}()
		if tb.failed && out.FailCase == nil && out.Infra == "" {
			out.Infra = "rapid: " + strings.Join(tb.log, "\n")
		}
	}
	pool.stop()
	out.WallS = time.Since(start).Seconds()
	ob, err := json.Marshal(out)
	must(err)
	must(os.WriteFile(job.OutFile+".tmp", ob, 0666))
	must(os.Rename(job.OutFile+".tmp", job.OutFile))
}

func seedFor(seed uint64, parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(seed, parts)))
	return binary.BigEndian.Uint64(h[:8]) >> 1
}

type replayFile struct {
	Property, Suite string
	Case            json.RawMessage
	Fail            []string
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func checkMain(prop string) int {
	start := time.Now()
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		seed = 1
	}
	all := propSuites(prop)
	if len(all) == 0 {
		fmt.Fprintln(os.Stderr, "vh: unknown property", prop)
		return 3
	}
	work, err := os.MkdirTemp("", "vh-"+prop+"-")
	must(err)
	os.Chmod(work, 0711) // for commands run as another user
	defer removeTree(work)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	var mu sync.Mutex
	procs := map[*exec.Cmd]bool{}
	killAll := func() {
		mu.Lock()
		for c := range procs {
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		}
		mu.Unlock()
	}
	go func() {
		<-sig
		killAll()
		removeTree(work)
		os.Exit(3)
	}()

	budget := 400 * time.Second
	if tier() == "thorough" {
		budget = 3 * time.Hour
	}
	scale := 1.0
	if v := os.Getenv("VH_SCALE"); v != "" {
		scale, _ = strconv.ParseFloat(v, 64)
	}
	shrink := 40 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VH_SHRINK")); err == nil {
		shrink = d
	}
	only := os.Getenv("VH_SUITE")
	deadline := start.Add(budget)
	suiteTime, _ := time.ParseDuration(os.Getenv("VH_SUITE_TIME"))
	var outs []shardOut
	var names []string
	perSuite := map[string]map[string]any{}
	var failOut *shardOut
	var failSuite *suite
	for _, s := range all {
		cases := s.quick
		if tier() == "thorough" {
			cases = s.thorough
		} else if s.quickOff {
			continue
		}
		if only != "" && only != s.name {
			continue
		}
		if suiteTime > 0 {
			if s.gen == nil {
				continue
			}
			deadline = time.Now().Add(suiteTime)
		}
		cases = int(float64(cases) * scale)
		n := s.shards
		if n == 0 {
			n = max(2, runtime.NumCPU())
		}
		if k, err := strconv.Atoi(os.Getenv("VH_SHARDS")); err == nil && k > 0 {
			n = k
		}
		if s.netns && !canNetNS() {
			n = 1
		}
		if cases > 0 && n > cases {
			n = cases
		}
		exe := os.Args[0]
		if s.race {
			exe = filepath.Join(os.Getenv("VH_BIN"), "vh-race")
		}
		res := make([]shardOut, n)
		var wg sync.WaitGroup
		var aborted atomic.Bool
		for i := 0; i < n; i++ {
			job := shardJob{
				Prop: prop, Suite: s.name, Shard: i,
				Cases:    (cases + n - 1 - i) / n,
				Seed:     seedFor(seed, prop, s.name, i),
				Scratch:  filepath.Join(work, fmt.Sprintf("%s-%d", s.name, i)),
				Deadline: deadline,
				Shrink:   shrink,
				OutFile:  filepath.Join(work, fmt.Sprintf("%s-%d.out", s.name, i)),
				NetNS:    s.netns && canNetNS(),
			}
			for j := range s.fixed {
				if j%n == i {
					job.Fixed = append(job.Fixed, j)
				}
			}
			must(os.MkdirAll(job.Scratch, 0777))
			jf := filepath.Join(work, fmt.Sprintf("%s-%d.job", s.name, i))
			jb, _ := json.Marshal(job)
			must(os.WriteFile(jf, jb, 0666))
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(exe, "shard", jf)
				var errs ring
				cmd.Stdout, cmd.Stderr = &errs, &errs
				cmd.Env = append(os.Environ(), "VH_WORK="+work)
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				// Pdeathsig is tied to the thread that starts the process.
				runtime.LockOSThread()
				err := cmd.Start()
				if err == nil {
					mu.Lock()
					procs[cmd] = true
					mu.Unlock()
					err = cmd.Wait()
					mu.Lock()
					delete(procs, cmd)
					mu.Unlock()
				}
				b, rerr := os.ReadFile(job.OutFile)
				if rerr != nil && aborted.Load() {
					return
				}
				if rerr != nil {
					res[i].Infra = fmt.Sprintf("shard died: %v\n%s", err, errs.tail())
					return
				}
				if err := json.Unmarshal(b, &res[i]); err != nil {
					res[i].Infra = err.Error()
				}
				if res[i].Fail != "" {
					// One shrunk counterexample is enough.
					aborted.Store(true)
					killAll()
				}
			}()
		}
		wg.Wait()
		stat := map[string]any{}
		nt := map[string]bool{}
		ev := 0
		for i := range res {
			ev += res[i].Evaluations
			for k := range res[i].Nontrivial {
				nt[k] = true
			}
			if res[i].Fail != "" && (failOut == nil || len(res[i].FailCase) < len(failOut.FailCase)) {
				failOut = &res[i]
				failSuite = s
			}
		}
		stat["evaluations"] = ev
		stat["distinct_nontrivial"] = len(nt)
		perSuite[s.name] = stat
		names = append(names, s.name)
		outs = append(outs, res...)
		if failOut != nil {
			break
		}
	}

	// Merge.
	total := shardOut{Nontrivial: map[string]bool{}, Labels: map[string]int{}}
	code := 0
	truncated := false
	for i := range outs {
		o := &outs[i]
		total.Evaluations += o.Evaluations
		total.Invalid += o.Invalid
		for k := range o.Nontrivial {
			total.Nontrivial[k] = true
		}
		for k, v := range o.Labels {
			total.Labels[k] += v
		}
		if o.Infra != "" {
			fmt.Fprintf(os.Stderr, "vh: machinery error: %s\n", o.Infra)
			if len(o.FailCase) > 0 {
				fmt.Fprintf(os.Stderr, "case: %s\n", clip(string(o.FailCase)))
			}
			if code == 0 {
				code = 3
			}
		}
		truncated = truncated || o.Truncated
	}
	for i := range outs {
		for _, s := range outs[i].Samples {
			if len(total.Samples) < 8 {
				total.Samples = append(total.Samples, s)
			}
			break
		}
	}
	violations := 0
	replay := ""
	if failOut != nil {
		violations = 1
		code = 1
		replay = report(prop, failSuite, failOut, work)
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(total.Nontrivial),
		"rule":                rules[prop],
		"samples":             total.Samples,
		"suites":              perSuite,
		"labels":              total.Labels,
		"out_of_domain":       total.Invalid,
		"stopped_at_deadline": truncated,
	}
	ev := map[string]any{
		"property":    prop,
		"tier":        tier(),
		"seed":        seed,
		"level":       levelOf(prop),
		"coverage":    cov,
		"assumptions": assumptions[prop],
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	eb, _ := json.MarshalIndent(ev, "", "  ")
	root := os.Getenv("VH_ROOT")
	if root != "" {
		os.MkdirAll(filepath.Join(root, "evidence"), 0777)
		if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0666); err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			if code == 0 {
				code = 3
			}
		}
	}
	sort.Strings(names)
	fmt.Printf("%s %s seed=%d suites=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		prop, tier(), seed, strings.Join(names, ","), total.Evaluations, len(total.Nontrivial), time.Since(start).Seconds())
	if os.Getenv("VH_LABELS") != "" {
		lb, _ := json.MarshalIndent(total.Labels, "", "  ")
		fmt.Printf("%s\n", lb)
		for _, s := range total.Samples {
			fmt.Printf("sample %s\n", s)
		}
		for _, o := range outs {
			fmt.Printf("shard wall %.1f\n", o.WallS)
		}
	}
	if failOut != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	if code == 0 && total.Evaluations == 0 {
		fmt.Fprintln(os.Stderr, "vh: nothing was evaluated")
		code = 3
	}
	return code
}

func levelOf(prop string) string {
	if prop == "C12" {
		return "fault_enumeration"
	}
	return "exploration"
}

// report confirms a failure in a fresh worker and writes its replay file.
func report(prop string, s *suite, o *shardOut, work string) string {
	pool := &workerPool{scratch: filepath.Join(work, "confirm"), self: os.Args[0], netns: s.netns && canNetNS()}
	if s.race {
		pool.self = filepath.Join(os.Getenv("VH_BIN"), "vh-race")
	}
	os.Setenv("VH_WORK", work)
	resp, _ := pool.exec(s, o.FailCase)
	pool.stop()
	msg := o.Fail
	confirmed := "reproduced in a fresh process"
	if resp.Result.Fail == "" {
		confirmed = "did not reproduce in a fresh process on the first attempt"
	} else {
		msg = resp.Result.Fail
	}
	dir := filepath.Join(os.Getenv("VH_ROOT"), "replays")
	os.MkdirAll(dir, 0777)
	h := sha256.Sum256(o.FailCase)
	file := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, s.name, h[:5]))
	rf := replayFile{prop, s.name, o.FailCase, append(strings.Split(msg, "\n"), confirmed)}
	b := encodeCase(rf)
	if err := os.WriteFile(file, append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
	}
	fmt.Printf("%s/%s: %s\n", prop, s.name, msg)
	fmt.Printf("case: %s\n(%s)\n", clip(string(o.FailCase)), confirmed)
	return file
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	s := findSuite(rf.Property, rf.Suite)
	if s == nil {
		fmt.Fprintln(os.Stderr, "vh: unknown suite")
		return 3
	}
	work, err := os.MkdirTemp("", "vh-replay-")
	must(err)
	os.Chmod(work, 0711) // for commands run as another user
	defer removeTree(work)
	os.Setenv("VH_WORK", work)
	pool := &workerPool{scratch: work, self: os.Args[0], netns: s.netns && canNetNS()}
	if s.race {
		pool.self = filepath.Join(os.Getenv("VH_BIN"), "vh-race")
	}
	resp, _ := pool.exec(s, rf.Case)
	pool.stop()
	if resp.Infra != "" {
		fmt.Fprintln(os.Stderr, "vh: machinery error:", resp.Infra)
		return 3
	}
	if resp.Result.Fail != "" {
		fmt.Printf("%s/%s: %s\n", rf.Property, rf.Suite, resp.Result.Fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Printf("%s/%s: holds on this case\n", rf.Property, rf.Suite)
	return 0
}

var canNetNS = sync.OnceValue(func() bool {
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
	}
	return cmd.Run() == nil
})
