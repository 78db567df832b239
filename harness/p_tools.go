package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// C21 (csearch) and C22 (cgrep): flags, selection and exit status of the commands.

type toolFlags struct {
	L, C, N, H, V, I bool `json:",omitempty"`
	A, B, Ctx        int  `json:",omitempty"` // Ctx: -C
	Long             bool `json:",omitempty"` // spell flags differently
	Prof             bool `json:",omitempty"` // -cpuprofile
}

func (f toolFlags) args(e *Env) []string {
	var l []string
	if f.Prof {
		l = append(l, "-cpuprofile="+e.Dir+"/cpu.prof")
	}
	add := func(on bool, s string) {
		if on {
			if f.Long {
				s = "-" + s + "=true"
			}
			l = append(l, s)
		}
	}
	add(f.L, "-l")
	add(f.C, "-c")
	add(f.N, "-n")
	add(f.H, "-h")
	add(f.V, "-v")
	add(f.I, "-i")
	if f.Ctx > 0 {
		l = append(l, "-C", strconv.Itoa(f.Ctx))
	}
	if f.A > 0 {
		l = append(l, "-A", strconv.Itoa(f.A))
	}
	if f.B > 0 {
		l = append(l, "-B="+strconv.Itoa(f.B))
	}
	return l
}

func (f toolFlags) model() grepFlags {
	g := grepFlags{L: f.L, C: f.C, N: f.N, H: f.H, V: f.V, Pre: f.Ctx, Post: f.Ctx}
	if f.A > 0 {
		g.Post = f.A
	}
	if f.B > 0 {
		g.Pre = f.B
	}
	return g
}

func genToolFlags(t *rapid.T) toolFlags {
	f := toolFlags{
		L: chance(t, 15, "l"), C: chance(t, 15, "c"), N: chance(t, 40, "n"), H: chance(t, 25, "h"), I: chance(t, 25, "i"),
		Long: chance(t, 10, "long"), Prof: chance(t, 2, "prof"),
	}
	if chance(t, 15, "ctx") {
		switch intn(t, 0, 3, "ctxkind") {
		case 0:
			f.Ctx = intn(t, 1, 3, "C")
		case 1:
			f.A = intn(t, 1, 3, "A")
		case 2:
			f.B = intn(t, 1, 3, "B")
		case 3:
			f.A, f.B = intn(t, 1, 3, "A"), intn(t, 1, 3, "B")
		}
	}
	return f
}

func (f toolFlags) pattern(expr string) string {
	if f.I {
		return "(?i)(?m)" + expr
	}
	return "(?m)" + expr
}

type c22File struct {
	K    string   // file, missing, dir, again (repeats the previous argument), fifo, stdin (/dev/stdin), locked
	Name B        `json:",omitempty"`
	Text textSpec `json:",omitempty"`
	N    int      `json:",omitempty"` // so many copies under different names
}

type c22Case struct {
	Expr  B
	Flags toolFlags
	Stdin bool     `json:",omitempty"`
	In    textSpec `json:",omitempty"`
	Files []c22File
}

func genC22V(t *rapid.T, vPct int) c22Case {
	g := newGrepGen(t)
	c := c22Case{Expr: B(strings.TrimPrefix(g.expr, "(?m)")), Flags: genToolFlags(t)}
	if chance(t, 4, "odd") {
		c.Expr = B(pick(t, oddExprs, "oddexpr"))
	}
	c.Flags.V = chance(t, vPct, "v")
	text := func() textSpec {
		if chance(t, 2, "big") {
			return g.big(40)
		}
		return g.small()
	}
	if chance(t, 20, "stdin") {
		c.Stdin = true
		c.In = text()
		return c
	}
	for n := intn(t, 1, 4, "nfiles"); n > 0; n-- {
		f := c22File{K: "file", Name: B(pick(t, []string{"f", "a/b.go", "a b", "naïve", "x:y", "a&b", "q\"'<i>", "%d", "./f2", "a//c", "$W/abs"}, "fname"))}
		switch intn(t, 0, 12, "kind") {
		case 12:
			f.K = pick(t, []string{"fifo", "stdin"}, "special")
			f.Text = g.small()
		case 9:
			f.K = "missing"
		case 10:
			f.K = "dir"
			f.Name = "somedir"
		case 11:
			f.K = "again"
		default:
			f.Text = text()
			if chance(t, 2, "many") {
				f.Text = g.small()
				f.N = intn(t, 2, 1500, "copies")
			}
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func genC22(t *rapid.T) c22Case { return genC22V(t, 20) }

func checkC22(e *Env, c c22Case) Result {
	var r Result
	expr := string(c.Expr)
	if strings.IndexByte(expr, 0) >= 0 {
		return Result{Invalid: true}
	}
	pat := c.Flags.pattern(expr)
	args := append(c.Flags.args(e), "--", expr)
	lre, err := compileLineRE(pat)
	var m *grepModel
	noB := false
	if err == nil {
		m = &grepModel{f: c.Flags.model(), re: lre, expr: pat}
		noB = usesNoWordBoundary(lre.prog)
	}
	okText := func(s string) bool { return utf8.ValidString(s) && !(noB && !isASCII(s)) }
	contents := map[string]string{}
	fifos := map[string]bool{}
	var errs []string // names that must be reported
	var stdin []byte
	if c.Stdin {
		text := c.In.String()
		if !okText(text) {
			return Result{Invalid: true}
		}
		stdin = []byte(text)
		if m != nil {
			m.file("<standard input>", text)
		}
	} else {
		if len(c.Files) == 0 {
			return Result{Invalid: true}
		}
		type arg struct{ name, path string }
		var list []arg
		for _, f := range c.Files {
			name := strings.ReplaceAll(string(f.Name), "$W", e.Dir)
			if name == "" || name[0] == '-' || strings.IndexByte(name, 0) >= 0 {
				return Result{Invalid: true}
			}
			path := name
			if !strings.HasPrefix(path, "/") {
				path = e.Dir + "/" + path
			}
			path = filepath.Clean(path)
			if !strings.HasPrefix(path, e.Dir+"/") {
				return Result{Invalid: true}
			}
			switch f.K {
			case "file":
				text := f.Text.String()
				if !okText(text) || fifos[path] {
					return Result{Invalid: true}
				}
				contents[path] = text
				writeFile(path, text)
				list = append(list, arg{name, path})
				if f.N > 5000 {
					return Result{Invalid: true}
				}
				for i := 1; i < f.N; i++ {
					n := fmt.Sprintf("%s-%d", name, i)
					p := fmt.Sprintf("%s-%d", path, i)
					contents[p] = text
					writeFile(p, text)
					list = append(list, arg{n, p})
				}
				if f.N > 100 {
					r.label("many arguments")
				}
			case "fifo":
				text := f.Text.String()
				if _, err := os.Lstat(path); err == nil || !okText(text) || len(text) > 4000 {
					return Result{Invalid: true}
				}
				must(os.MkdirAll(filepath.Dir(path), 0777))
				must(syscall.Mkfifo(path, 0666))
				fifos[path] = true
				done := make(chan bool)
				go func() {
					defer close(done)
					w, err := os.OpenFile(path, os.O_WRONLY, 0) // waits for the reader
					if err == nil {
						w.WriteString(text)
						w.Close()
					}
				}()
				defer func() {
					// Release the writer if nobody has read.
					if r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
						<-done
						r.Close()
					}
				}()
				contents[path] = text
				list = append(list, arg{name, path})
				r.label("fifo")
			case "stdin":
				text := f.Text.String()
				if stdin != nil || !okText(text) {
					return Result{Invalid: true}
				}
				stdin = []byte(text)
				contents["/dev/stdin"] = text
				list = append(list, arg{"/dev/stdin", "/dev/stdin"})
				r.label("/dev/stdin")
			case "missing":
				name = "no/such/" + filepath.Base(name)
				list = append(list, arg{name, ""})
			case "dir":
				must(os.MkdirAll(path, 0777))
				list = append(list, arg{name, ""})
			case "again":
				if len(list) > 0 {
					last := list[len(list)-1]
					if fifos[last.path] || last.path == "/dev/stdin" {
						return Result{Invalid: true}
					}
					list = append(list, last)
				}
			default:
				return Result{Invalid: true}
			}
		}
		if len(list) == 0 {
			return Result{Invalid: true}
		}
		for _, a := range list {
			args = append(args, a.name)
			if a.path == "" {
				errs = append(errs, a.name)
				r.label("unreadable argument")
			} else if m != nil {
				m.file(a.name, contents[a.path])
			}
		}
	}
	o := runOpt{stdin: stdin}
	if len(contents) > fewFiles {
		o.files = fewFiles
	}
	p := e.run(o, append([]string{e.tool("cgrep")}, args...)...)
	if m == nil {
		if p.Code <= 0 || len(p.Out) > 0 || len(p.Err) == 0 {
			return fail("cgrep %q with an invalid expression: %v", args, p)
		}
		r.label("invalid expression")
		return r
	}
	if d := m.out.diff(string(p.Out)); d != "" {
		return fail("cgrep %q: %s (%v)", args, d, p)
	}
	want := 1
	if m.match {
		want = 0
	}
	if p.Code != want {
		return fail("cgrep %q: %v, want exit %d", args, p, want)
	}
	rest := string(p.Err)
	for _, n := range errs {
		i := strings.Index(rest, n)
		if i < 0 {
			return fail("cgrep %q: unreadable %q not reported on standard error: %v", args, n, p)
		}
		rest = rest[i+len(n):]
	}
	if len(errs) == 0 && rest != "" {
		return fail("cgrep %q: unexpected message on standard error: %v", args, p)
	}
	r.Nontrivial = m.matches > 0 && m.lines > m.matches
	if c.Stdin {
		r.label("standard input")
	}
	if m.some > 1 {
		r.label("several files")
	}
	r.label("exit %d", want)
	return r
}

// C21

type c21Case struct {
	Deep  int `json:",omitempty"`
	Tree  []tnode
	Gone  []B `json:",omitempty"` // removed after indexing
	Exprs []c21Query
	Where string   // env, home, emptyenv, both
	Other textSpec `json:",omitempty"` // content known only to the other index
}

type c21Query struct {
	Expr    B
	F       B `json:",omitempty"`
	Flags   toolFlags
	Brute   bool `json:",omitempty"`
	Verbose bool `json:",omitempty"`
	Extra   bool `json:",omitempty"` // one argument too many
}

func genC21(t *rapid.T) c21Case {
	g := newGrepGen(t)
	c := c21Case{Deep: genDeep(t, 1800), Where: pick(t, []string{"env", "env", "home", "emptyenv", "both"}, "where")}
	var prev []string
	for n := intn(t, 1, 8, "nfiles"); n > 0; n-- {
		p := genRel(t, 0, prev)
		prev = append(prev, p)
		c.Tree = append(c.Tree, tnode{P: B(p), K: "file", T: B(g.small().String())})
	}
	if chance(t, 2, "many") {
		c.Tree = append(c.Tree, tnode{P: "m", K: "many", T: B(g.small().String()), Many: manyFiles(t, 10)})
	}
	for _, n := range c.Tree {
		if chance(t, 8, "gone") {
			c.Gone = append(c.Gone, n.P)
		}
	}
	for n := intn(t, 1, 5, "nqueries"); n > 0; n-- {
		q := c21Query{Flags: genToolFlags(t), Brute: chance(t, 30, "brute"), Verbose: chance(t, 8, "verbose"), Extra: chance(t, 1, "extra")}
		switch intn(t, 0, 9, "expr") {
		case 0:
			q.Expr = B(genRE(t, g.alpha, g.ascii))
		case 1:
			q.Expr = B(pick(t, []string{"", "^", ".", "$", "^$", "a", "[^a]", "zzzzzz"}, "stock"))
		case 2, 3, 4:
			q.Expr = B(strings.TrimPrefix(g.expr, "(?m)"))
		default:
			q.Expr = B(reFromLine(t, pick(t, g.hits, "hit"), g.alpha))
		}
		if chance(t, 3, "odd") {
			q.Expr = B(pick(t, oddExprs, "oddexpr"))
		}
		if chance(t, 35, "f") {
			p := pick(t, prev, "fprev")
			switch intn(t, 0, 6, "fkind") {
			case 0:
				q.F = B(quoteRE(p))
			case 1:
				q.F = B(quoteRE(filepath.Base(p)) + "$")
			case 2:
				q.F = B("/w/" + quoteRE(p) + `(/|$)`)
			case 3:
				q.F = B(pick(t, []string{`\.go$`, "^/", `\A/`, "nomatch$", "a", "(?i)LIB", "(", "b|é", `/w/[^/]*$`, `\z`, "^w"}, "fstock"))
			case 4:
				q.F = B("(?i)" + strings.ToUpper(quoteRE(filepath.Base(p))) + "$")
			default:
				q.F = B(reFromLine(t, filepath.Base(p), cliElems))
			}
		}
		c.Exprs = append(c.Exprs, q)
	}
	return c
}

func checkC21(e *Env, c c21Case) Result {
	var r Result
	w := newWorld(e, deepSub("w", c.Deep))
	w.build(c.Tree)
	home := e.Dir + "/home/.csearchindex"
	tmp := "TMPDIR=" + w.tmp
	homeEnv := "HOME=" + e.Dir + "/home"
	other := e.Dir + "/other"
	writeFile(other+"/secret", "foo bar abc quux a b k \n\nzzzzzz\n")
	index := func(dir string, env ...string) {
		p := e.run(runOpt{dir: w.root, env: append(env, tmp)}, e.tool("cindex"), dir)
		if p.Code != 0 {
			panic(fmt.Sprintf("cindex %s: %v", dir, p))
		}
	}
	switch c.Where {
	case "env":
		w.env = []string{"CSEARCHINDEX=" + w.index, homeEnv, tmp}
		index(w.root, w.env...)
	case "home":
		w.env = []string{homeEnv, tmp}
		index(w.root, w.env...)
		w.index = home
	case "emptyenv":
		w.env = []string{"CSEARCHINDEX=", homeEnv, tmp}
		index(w.root, w.env...)
		w.index = home
	case "both":
		index(other, homeEnv)
		w.env = []string{"CSEARCHINDEX=" + w.index, homeEnv, tmp}
		index(w.root, w.env...)
	default:
		return Result{Invalid: true}
	}
	st, ok := w.indexState([]string{w.root})
	if !ok {
		return Result{Invalid: true}
	}
	if bad := w.checkIndexFile(st); bad != "" {
		return fail("index in the expected place (%s): %s", c.Where, bad)
	}
	for _, g := range c.Gone {
		w.remove(string(g))
	}
	names := sortedNames(st.files)
	finds, filtered := 0, 0
	for _, q := range c.Exprs {
		expr := string(q.Expr)
		if strings.IndexByte(expr, 0) >= 0 || strings.IndexByte(string(q.F), 0) >= 0 || q.Flags.V {
			return Result{Invalid: true}
		}
		pat := q.Flags.pattern(expr)
		lre, err := compileLineRE(pat)
		var fre *lineRE
		if q.F != "" && err == nil {
			fre, err = compileLineRE(string(q.F))
		}
		args := q.Flags.args(e)
		if q.F != "" {
			args = append(args, "-f", string(q.F))
		}
		if q.Brute {
			args = append(args, "-brute")
		}
		if q.Verbose {
			args = append(args, "-verbose")
		}
		args = append(args, "--", expr)
		if q.Extra {
			args = append(args, "more")
		}
		p := w.run("csearch", args...)
		if err != nil || q.Extra {
			if p.Code <= 0 || len(p.Out) > 0 || len(p.Err) == 0 {
				return fail("csearch %q is invalid: %v", args, p)
			}
			r.label("refused")
			continue
		}
		if usesNoWordBoundary(lre.prog) || fre != nil && usesNoWordBoundary(fre.prog) {
			continue // \B is only approximate outside ASCII
		}
		m := &grepModel{f: q.Flags.model(), re: lre, expr: pat}
		for _, n := range names {
			if fre != nil && fre.firstMatch(n, true, true) < 0 {
				filtered++
				continue
			}
			x := w.nodes[strings.TrimPrefix(n, w.root+"/")]
			if x == nil {
				r.label("file gone")
				continue
			}
			m.file(n, x.Text)
		}
		if d := m.out.diff(string(p.Out)); d != "" {
			return fail("csearch %q: %s (%v)", args, d, p)
		}
		want := 1
		if m.match {
			want = 0
			finds++
		}
		if p.Code != want {
			return fail("csearch %q: %v, want exit %d", args, p, want)
		}
		if len(p.Err) > 0 && !q.Verbose {
			return fail("csearch %q: unexpected message: %v", args, p)
		}
		if q.Brute {
			r.label("-brute")
		}
		if q.Flags.I {
			r.label("-i")
		}
		if fre != nil && m.match {
			r.label("-f and found")
		}
	}
	r.label("index by %s", c.Where)
	r.Nontrivial = finds > 0
	_ = filtered
	return r
}

func init() {
	rules["C22"] = "one expression, all flags (two spellings), standard input or 1-4 file arguments (sometimes up to thousands), some missing, directories, repeated, named pipes or /dev/stdin, with a limit of 256 open files where there are more; output, exit status and messages compared with the model; non-trivial: some line is selected and some is not"
	assumptions["C22"] = []string{"valid UTF-8 texts"}
	rules["C21"] = "a tree of 1-8 files, now and then of more than 256, searched under a limit of 256 open files (sometimes below a path of up to 1800 bytes), index named by CSEARCHINDEX or HOME (or both, different), some files removed after indexing, 1-5 csearch runs with any of -f -i -l -c -n -h -A -B -C -brute -verbose; non-trivial: some run finds something"
	assumptions["C21"] = []string{"valid UTF-8 texts and ASCII or UTF-8 names; files unchanged or removed since indexing"}
	reg("C22", "cgrep", opts{quick: 40000, thorough: 1000000, recycle: 5000}, genC22, checkC22,
		c22Case{Expr: "foo", Files: []c22File{{K: "file", Name: "f", Text: textSpec{{T: "bar\n"}}, N: 1200}, {K: "fifo", Name: "p", Text: textSpec{{T: "foo\n"}}}, {K: "stdin", Text: textSpec{{T: "a foo"}}}, {K: "file", Name: "g", Text: textSpec{{T: "foo\n"}}}}})
	reg("C16", "cgrep", opts{quick: 10000, thorough: 250000, recycle: 5000}, func(t *rapid.T) c22Case { return genC22V(t, 100) }, checkC22)
	reg("C21", "csearch", opts{quick: 8000, thorough: 200000, recycle: 2000}, genC21, checkC21,
		c21Case{Tree: []tnode{{P: "a", K: "file", T: "foo\n"}}, Where: "env", Exprs: []c21Query{{Flags: toolFlags{L: true}}, {Flags: toolFlags{C: true, H: true}}, {Expr: "foo", Flags: toolFlags{L: true, C: true}}}})
}
