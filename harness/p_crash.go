package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// C12: updates that fail or are killed.

type c12Bulk struct {
	P           B
	Seed, Lines int
}

type c12Fault struct {
	K    string // kill, torn (kill after half a write), err, full (err from there on), short (no fault, but writes are partial), limit (file size), partial (a partial write, then an error), filled (the same, and every write after that fails)
	At   int    // position in the run, in 1/10000
	E    string `json:",omitempty"`
	Keep bool   `json:",omitempty"` // the next fault hits the run after this one, on what this one left
}

type c12Case struct {
	Tree    []tnode
	Bulk    []c12Bulk `json:",omitempty"`
	OldArgs []B
	Edits   []c07Op
	Args    []B  `json:",omitempty"` // none: cindex without arguments
	Zip     bool `json:",omitempty"`
	Check   bool `json:",omitempty"`
	Junk    bool `json:",omitempty"` // stale side files, longer than any index
	Faults  []c12Fault
	All     int `json:",omitempty"` // if not 0, also a kill, a torn write and every error at each All-th operation
	First   int `json:",omitempty"` // starting from this one
	Expr    B
}

// Errors that a kernel can give for an operation.
var opErrors = map[string][]string{
	"open":   {"EMFILE", "EACCES", "ENOSPC", "EIO", "EROFS"},
	"write":  {"ENOSPC", "EIO", "EDQUOT", "EFBIG"},
	"copy":   {"ENOSPC", "EDQUOT"},
	"read":   {"EIO"},
	"stat":   {"EIO", "EACCES"},
	"mmap":   {"ENOMEM", "EACCES"},
	"rename": {"EACCES", "EIO", "ENOSPC", "EROFS", "EBUSY"},
	"unlink": {"EACCES", "EIO", "EROFS"},
	"other":  {"EIO", "ENOSPC"},
}

var errnos = map[string]syscall.Errno{"EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES, "ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EROFS": syscall.EROFS,
	"EDQUOT": syscall.EDQUOT, "EFBIG": syscall.EFBIG, "ENOMEM": syscall.ENOMEM, "EBUSY": syscall.EBUSY}

func genC12(t *rapid.T) c12Case {
	var c c12Case
	var prev []string
	path := func() string {
		p := genRel(t, 0, prev)
		prev = append(prev, p)
		return p
	}
	for n := intn(t, 1, 5, "nfiles"); n > 0; n-- {
		c.Tree = append(c.Tree, tnode{P: B(path()), K: "file", T: B(genCliText(t))})
	}
	if chance(t, 15, "bulk") {
		for n := intn(t, 1, 6, "nbulk"); n > 0; n-- {
			c.Bulk = append(c.Bulk, c12Bulk{B(path()), intn(t, 0, 1000, "seed"), intn(t, 10, 900, "lines")})
		}
	}
	arg := func() B {
		p := ""
		if len(prev) > 0 && chance(t, 80, "sub") {
			p = pick(t, prev, "argprev")
			for k := intn(t, 0, 2, "up"); k > 0; k-- {
				p = parentOf(p)
			}
		}
		if p == "" {
			p = "."
		}
		return B(p)
	}
	for n := intn(t, 1, 2, "noldargs"); n > 0; n-- {
		c.OldArgs = append(c.OldArgs, arg())
	}
	for n := intn(t, 0, 5, "nedits"); n > 0; n-- {
		switch intn(t, 0, 4, "edit") {
		case 0:
			c.Edits = append(c.Edits, c07Op{K: "rm", P: B(path())})
		case 1:
			c.Edits = append(c.Edits, c07Op{K: "mv", P: B(path()), Q: B(path())})
		default:
			c.Edits = append(c.Edits, c07Op{K: "write", P: B(path()), T: B(genCliText(t))})
		}
	}
	if chance(t, 60, "args") {
		for n := intn(t, 1, 2, "nargs"); n > 0; n-- {
			c.Args = append(c.Args, arg())
		}
	}
	c.Zip, c.Check, c.Junk = chance(t, 8, "zip"), chance(t, 20, "check"), chance(t, 15, "junk")
	for n := intn(t, 1, 8, "nfaults"); n > 0; n-- {
		f := c12Fault{K: pick(t, []string{"kill", "kill", "torn", "err", "err", "err", "full", "short", "limit", "partial", "filled"}, "fault"), At: intn(t, 0, 9999, "at"), Keep: chance(t, 30, "keep")}
		switch f.K {
		case "partial", "filled":
			f.E = pick(t, []string{"ENOSPC", "EDQUOT", "EFBIG", "EIO"}, "errno")
		case "err", "full":
			f.E = pick(t, []string{"ENOSPC", "EIO", "EACCES", "EMFILE", "ENOMEM", "EROFS", "EDQUOT", "EFBIG", "EBUSY"}, "errno")
		}
		c.Faults = append(c.Faults, f)
	}
	c.Expr = B(pick(t, []string{"foo", "a", "", "bar", "."}, "expr"))
	return c
}

func checkC12(e *Env, c c12Case) Result {
	var r Result
	w := newWorld(e, "w")
	w.build(c.Tree)
	for _, b := range c.Bulk {
		rnd := rand.New(rand.NewSource(int64(b.Seed)))
		var s strings.Builder
		for i := 0; i < b.Lines && i < 2000; i++ {
			for j := rnd.Intn(60); j >= 0; j-- {
				s.WriteByte("abcdefghijklmnopqrstuvwxyz  "[rnd.Intn(28)])
			}
			s.WriteByte('\n')
		}
		w.put(string(b.P), node{Kind: "file", Text: s.String()})
	}
	given, _, ok := w.absArgs(c.OldArgs)
	if !ok {
		return Result{Invalid: true}
	}
	if p := w.run("cindex", given...); p.Code != 0 {
		return fail("cindex %q: %v", given, p)
	}
	old, err := os.ReadFile(w.index)
	if err != nil {
		return fail("no index after cindex: %v", err)
	}
	for _, op := range c.Edits {
		switch op.K {
		case "write":
			w.put(string(op.P), node{Kind: "file", Text: string(op.T)})
		case "rm":
			w.remove(string(op.P))
		case "mv":
			w.move(string(op.P), string(op.Q))
		}
	}
	args := []string{}
	if len(c.Args) > 0 {
		if args, _, ok = w.absArgs(c.Args); !ok {
			return Result{Invalid: true}
		}
	}
	if c.Check {
		args = append([]string{"-check"}, args...)
	}
	if c.Zip {
		args = append([]string{"-zip"}, args...)
	}
	argv := append([]string{e.tool("cindex")}, args...)
	ixDir := filepath.Dir(w.index)

	// What a run without faults makes of an index.
	nexts := map[string][]byte{}
	next := func(cur []byte) []byte {
		if n, ok := nexts[string(cur)]; ok {
			return n
		}
		alt := e.Dir + "/alt"
		must(os.MkdirAll(alt, 0777))
		must(os.WriteFile(alt+"/index", cur, 0666))
		p := e.run(runOpt{dir: w.root, env: append([]string{"CSEARCHINDEX=" + alt + "/index"}, w.env[1:]...)}, argv...)
		if p.Code != 0 {
			panic(fmt.Sprintf("cindex %q: %v", args, p))
		}
		n, err := os.ReadFile(alt + "/index")
		must(err)
		nexts[string(cur)] = n
		must(os.RemoveAll(alt))
		return n
	}
	search := func() string {
		p := w.run("csearch", string(c.Expr))
		return fmt.Sprintf("%d\n%s%s", p.Code, p.Out, p.Err)
	}
	found := map[string]string{}
	// same reports whether an index is the wanted one.
	same := func(got, want []byte) bool {
		if bytes.Equal(got, want) {
			return true
		}
		if bytes.Equal(want, old) {
			return false
		}
		x, err := decodeV2(got)
		if err != nil {
			return false
		}
		y, err := decodeV2(want)
		return err == nil && diffX(x, y) == ""
	}
	const (
		isOld = 1 << iota
		isNew
	)
	state := func(cur, nxt []byte) (int, string) {
		got, err := os.ReadFile(w.index)
		if err != nil {
			return 0, err.Error()
		}
		s := 0
		if bytes.Equal(got, cur) {
			s |= isOld
		}
		if same(got, nxt) {
			s |= isNew
		}
		if s == 0 {
			return 0, fmt.Sprintf("%d bytes, neither the %d bytes of the old index nor the %d of the new", len(got), len(cur), len(nxt))
		}
		return s, ""
	}
	clear := func(cur []byte) {
		must(os.RemoveAll(ixDir))
		must(os.Mkdir(ixDir, 0777))
		must(os.WriteFile(w.index, cur, 0666))
		must(os.RemoveAll(w.tmp))
		must(os.Mkdir(w.tmp, 0777))
		if c.Junk {
			junk := bytes.Repeat([]byte("stale\x00"), 2000+len(cur))
			for _, s := range []string{"~", "~~"} {
				must(os.WriteFile(w.index+s, junk, 0666))
			}
		}
	}
	opt := runOpt{dir: w.root, env: w.env}
	dirs := []string{ixDir, w.tmp}
	faults, diffs := 0, 0

	// An undisturbed run, looking at the index after every operation: what is
	// there then is what a kill at that point leaves.
	var ops []fileOp
	observe := func(cur []byte) string {
		ops = nil
		nxt := next(cur)
		bad := ""
		tr := &tracer{dirs: dirs, before: func(i int, o fileOp) opFault {
			ops = append(ops, o)
			return opFault{}
		}, after: func(i int, o fileOp) {
			if bad == "" {
				if _, b := state(cur, nxt); b != "" {
					bad = fmt.Sprintf("killed after operation %d (%v), cindex %q leaves an index of %s", i, o, args, b)
				}
			}
			faults++
		}}
		p := tr.run(e, opt, argv...)
		if bad != "" {
			return bad
		}
		if p.Code != 0 {
			return fmt.Sprintf("cindex %q: %v", args, p)
		}
		if s, b := state(cur, nxt); s&isNew == 0 {
			return fmt.Sprintf("after cindex %q: the index is not what the same run gives elsewhere: %s", args, b)
		}
		return ""
	}
	clear(old)
	found[string(old)] = search()
	if bad := observe(old); bad != "" {
		return fail("%s", bad)
	}
	if len(ops) == 0 {
		infra("the tracer saw no operation of cindex")
	}
	if len(w.leftovers()) > 0 {
		r.label("leftovers")
	}
	n1 := next(old)
	found[string(n1)] = search()

	cur := old
	clear(cur)
	// one runs cindex with one fault and judges what is left.
	one := func(f c12Fault, at int) string {
		nxt := next(cur)
		what := fmt.Sprintf("cindex %q, %s %s at operation %d", args, f.K, f.E, at)
		if at < len(ops) {
			what += fmt.Sprintf(" (%v)", ops[at])
		}
		hit, erred := false, false
		tr := &tracer{dirs: dirs, before: func(i int, o fileOp) opFault {
			switch f.K {
			case "kill":
				hit = i == at
				return opFault{kill: i == at}
			case "torn":
				ok := i >= at && !hit && (o.kind == "write" || o.kind == "copy")
				hit = hit || ok
				return opFault{kill: ok, torn: ok}
			case "short":
				ok := i >= at && (o.kind == "write" || o.kind == "copy")
				hit = hit || ok
				return opFault{torn: ok}
			case "partial", "filled":
				switch ok := i >= at && (o.kind == "write" || o.kind == "copy"); {
				case ok && !hit:
					hit = true
					return opFault{torn: true}
				case ok && (!erred || f.K == "filled"):
					if !erred {
						what += fmt.Sprintf(" before %d %v", i, o)
					}
					erred = true
					return opFault{errno: errnos[f.E]}
				}
			case "err", "full":
				ok := i >= at && !hit && contains(opErrors[o.kind], f.E)
				if ok {
					hit = true
					what += fmt.Sprintf(" = %d %v", i, o)
					return opFault{errno: errnos[f.E], forever: f.K == "full"}
				}
			}
			return opFault{}
		}}
		var p *Proc
		if f.K == "limit" {
			p = e.run(opt, append([]string{"/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", 1+at*7), "--"}, argv...)...)
			hit = p.Code != 0
		} else {
			p = tr.run(e, opt, argv...)
		}
		faults++
		if hit {
			r.Nontrivial = true
			r.label("%s", strings.TrimSpace(f.K+" "+f.E))
		}
		s, bad := state(cur, nxt)
		if bad != "" {
			return fmt.Sprintf("%s: index found afterwards: %s; %v", what, bad, p)
		}
		if p.Timeout {
			return fmt.Sprintf("%s: %v", what, p)
		}
		if p.Code == 0 && s&isNew == 0 {
			return fmt.Sprintf("%s: cindex reports success but the index is the old one; %v", what, p)
		}
		if s&isOld == 0 {
			cur = nxt
			diffs++
		}
		if want, ok := found[string(cur)]; ok {
			if got := search(); got != want {
				return fmt.Sprintf("%s: csearch %q gives %q, want %q", what, c.Expr, got, want)
			}
		}
		return ""
	}
	recover := func(what string) string {
		p := w.run("cindex", args...)
		if p.Code != 0 {
			return fmt.Sprintf("after %s: a later cindex %q fails: %v", what, args, p)
		}
		nxt := next(cur)
		if s, b := state(cur, nxt); s&isNew == 0 {
			return fmt.Sprintf("after %s: a later cindex %q gives a wrong index: %s", what, args, b)
		}
		cur = nxt
		return ""
	}
	for i, f := range c.Faults {
		at := f.At * len(ops) / 10000
		if f.K == "limit" {
			at = f.At * (len(n1) + 100) / 7 / 10000
		}
		if bad := one(f, at); bad != "" {
			return fail("%s", bad)
		}
		if f.Keep && i+1 < len(c.Faults) {
			r.label("chain")
			continue
		}
		if bad := recover(f.K); bad != "" {
			return fail("%s", bad)
		}
		cur = old
		clear(cur)
	}
	if c.All > 0 {
		for at, o := range ops {
			if at%c.All != c.First {
				continue
			}
			fs := []c12Fault{{K: "kill"}}
			if o.kind == "write" || o.kind == "copy" {
				fs = append(fs, c12Fault{K: "torn"}, c12Fault{K: "short"}, c12Fault{K: "partial", E: "ENOSPC"}, c12Fault{K: "filled", E: "ENOSPC"})
			}
			if o.kind == "copy" {
				// After this error the standard library copies in another way,
				// but forgets to count what it had copied.
				fs = append(fs, c12Fault{K: "partial", E: "EIO"}, c12Fault{K: "filled", E: "EIO"})
			}
			for _, x := range opErrors[o.kind] {
				fs = append(fs, c12Fault{K: "err", E: x})
				if x == "ENOSPC" || x == "EMFILE" {
					fs = append(fs, c12Fault{K: "full", E: x})
				}
			}
			for _, f := range fs {
				cur = old
				clear(cur)
				if bad := one(f, at); bad != "" {
					return fail("%s", bad)
				}
				if bad := recover(fmt.Sprintf("%s %s at operation %d (%v)", f.K, f.E, at, o)); bad != "" {
					return fail("%s", bad)
				}
			}
		}
		r.label("every operation")
	}
	if diffs > 0 {
		r.label("new index left")
	}
	r.label("faults %d", 1<<log2(faults))
	return r
}

func log2(n int) int {
	k := 0
	for n > 1 {
		n >>= 1
		k++
	}
	return k
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func init() {
	rules["C12"] = "a small tree (sometimes with bulky files), an index of part of it, edits, and a cindex update (with arguments or without, -zip, -check, stale side files); an undisturbed traced run whose index file is inspected after each of its operations on index and temporary files, then runs killed, cut off within a write, given error codes (once or from there on), partial writes (alone or followed by errors) or a file size limit at chosen operations, alone or in sequence, each followed by csearch and a later cindex run; fixed cases do this at every operation; non-trivial: a fault took effect"
	assumptions["C12"] = []string{"rename within a directory is atomic; the system itself does not crash (no fsync is demanded); updates with -reset are outside the property"}
	f := func(p, t string) tnode { return tnode{P: B(p), K: "file", T: B(t)} }
	var fixed []c12Case
	for i := 0; i < 8; i++ {
		fixed = append(fixed,
			c12Case{Tree: []tnode{f("a/x", "foo\n"), f("b/y", "bar\n")}, OldArgs: []B{"."}, Edits: []c07Op{{K: "write", P: "a/z", T: "food\n"}}, Expr: "foo", All: 8, First: i},
			c12Case{Tree: []tnode{f("a/x", "foo\n"), f("b/y", "bar\n")}, OldArgs: []B{"a"}, Args: []B{"b"}, Check: true, Junk: true, Expr: "", All: 8, First: i},
			c12Case{Tree: []tnode{f("a/x", "foo\n")}, Bulk: []c12Bulk{{"a/b", 1, 900}, {"a/c", 2, 900}, {"a/d", 3, 900}, {"a/e", 4, 900}, {"b/a", 5, 900}, {"b/b", 6, 900}}, OldArgs: []B{"a"}, Edits: []c07Op{{K: "rm", P: "a/c"}}, Args: []B{"a", "b"}, Expr: "foo", All: 8, First: i})
	}
	reg("C12", "faults", opts{quick: 800, thorough: 20000, recycle: 100, cpuLimit: 300}, genC12, checkC12, fixed...)
}
