package main

import (
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// A world is a directory tree, real and modelled at once.

type node struct {
	Kind string // "dir", "file", "link", "fifo", "sock"
	Text string
	To   string
	Mode os.FileMode // 0: default
	Hard bool        // may have other links
}

type world struct {
	e     *Env
	root  string // absolute
	index string
	tmp   string
	nodes map[string]*node // by path relative to root; "" is the root itself
	env   []string
	attr  *syscall.SysProcAttr
}

// longPrefix is an absolute path of n bytes.
func longPrefix(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "/abcdefghijklmnopqrstuvwxyz.ABCDEFGHIJKLMNOPQRSTUVWXYZ-0123456789"[i%65]
	}
	if n > 0 && b[n-1] == '/' {
		b[n-1] = 'x'
	}
	return string(b)
}

// nameBound bounds the repeats of a text each of whose lines may be printed
// with its file's name.
func nameBound(deep int) int {
	if deep == 0 {
		return math.MaxInt
	}
	return 2000
}

// genDeep draws the length of a common prefix of all paths, mostly 0.
func genDeep(t *rapid.T, max int) int {
	if !chance(t, 12, "deep") {
		return 0
	}
	n := 1 << intn(t, 5, 20, "deepsize")
	return min(n+intn(t, -3, n-1, "deepoff"), max)
}

// deepSub is sub below a path of n bytes.
func deepSub(sub string, n int) string {
	if n < 2 {
		return sub
	}
	return longPrefix(min(n, 1800))[1:] + "/" + sub
}

func newWorld(e *Env, sub string) *world {
	w := &world{e: e, root: e.Dir + "/" + sub, index: e.Dir + "/ix/index", tmp: e.Dir + "/tmp", nodes: map[string]*node{"": {Kind: "dir"}}}
	for _, d := range []string{w.root, e.Dir + "/ix", w.tmp, e.Dir + "/home"} {
		must(os.MkdirAll(d, 0777))
	}
	w.env = []string{"CSEARCHINDEX=" + w.index, "TMPDIR=" + w.tmp, "HOME=" + e.Dir + "/home"}
	return w
}

func (w *world) abs(p string) string {
	if p == "" {
		return w.root
	}
	return w.root + "/" + p
}

func parentOf(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[:i]
	}
	return ""
}

func validRel(p string) bool {
	if p == "" {
		return false
	}
	for _, x := range strings.Split(p, "/") {
		if x == "" || x == "." || x == ".." || len(x) > 250 || strings.IndexByte(x, 0) >= 0 {
			return false
		}
	}
	return len(p) < 2000
}

// ensureDir makes p a directory if it can be one.
func (w *world) ensureDir(p string) bool {
	if n := w.nodes[p]; n != nil {
		return n.Kind == "dir"
	}
	if !validRel(p) || !w.ensureDir(parentOf(p)) {
		return false
	}
	must(os.Mkdir(w.abs(p), 0777))
	w.nodes[p] = &node{Kind: "dir"}
	return true
}

// put creates or replaces a non-directory, or creates a directory.
func (w *world) put(p string, n node) bool {
	if n.Kind == "dir" {
		return w.ensureDir(p)
	}
	if !validRel(p) || !w.ensureDir(parentOf(p)) {
		return false
	}
	if old := w.nodes[p]; old != nil {
		if old.Kind == "dir" {
			return false
		}
		if old.Kind != "file" || n.Kind != "file" || old.Hard {
			must(os.Remove(w.abs(p)))
		}
	}
	a := w.abs(p)
	switch n.Kind {
	case "file":
		must(os.WriteFile(a, []byte(n.Text), 0666))
	case "hard":
		// Another link to a file of the tree.
		other := w.nodes[n.To]
		if other == nil || other.Kind != "file" || n.To == p {
			delete(w.nodes, p)
			return false
		}
		must(os.Link(w.abs(n.To), a))
		other.Hard = true
		n = *other
	case "link":
		must(os.Symlink(n.To, a))
	case "fifo":
		must(syscall.Mkfifo(a, 0666))
	case "sock":
		if len(a) > 100 {
			delete(w.nodes, p)
			return false
		}
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: a, Net: "unix"})
		must(err)
		l.SetUnlinkOnClose(false)
		l.Close()
	default:
		infra("unknown node kind %q", n.Kind)
	}
	w.nodes[p] = &n
	return true
}

func (w *world) remove(p string) bool {
	if p == "" || w.nodes[p] == nil {
		return false
	}
	must(os.RemoveAll(w.abs(p)))
	for q := range w.nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(w.nodes, q)
		}
	}
	return true
}

func (w *world) move(p, q string) bool {
	if p == "" || w.nodes[p] == nil || !validRel(q) || q == p || strings.HasPrefix(q, p+"/") || w.nodes[q] != nil || !w.ensureDir(parentOf(q)) {
		return false
	}
	must(os.Rename(w.abs(p), w.abs(q)))
	moved := map[string]*node{}
	for x, n := range w.nodes {
		if x == p || strings.HasPrefix(x, p+"/") {
			moved[q+x[len(p):]] = n
			delete(w.nodes, x)
		}
	}
	for x, n := range moved {
		w.nodes[x] = n
	}
	return true
}

func hiddenName(s string) bool {
	return s != "" && (s[0] == '.' || s[0] == '#' || s[0] == '~' || s[len(s)-1] == '~')
}

// walk lists the files (relative) that indexing path arg must visit: regular and visible.
func (w *world) walk(arg string) []string {
	if w.nodes[arg] == nil {
		return nil
	}
	var out []string
	for p, n := range w.nodes {
		if n.Kind != "file" || !(p == arg || arg == "" || strings.HasPrefix(p, arg+"/")) {
			continue
		}
		ok := true
		rest := p
		for rest != "" && rest != arg {
			if hiddenName(filepath.Base(rest)) {
				ok = false
			}
			if m := w.nodes[parentOf(rest)]; m != nil && m.Mode != 0 && m.Mode&0500 != 0500 {
				ok = false
			}
			rest = parentOf(rest)
		}
		if n.Mode != 0 && n.Mode&0400 == 0 {
			ok = false
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// indexState is what indexing the given absolute roots yields now.
// ok is false if it is not determined.
func (w *world) indexState(roots []string) (st *mstate, ok bool) {
	st = &mstate{files: map[string]string{}}
	sorted := sortRoots(append([]string(nil), roots...))
	for _, r := range sorted {
		nested := false
		for _, o := range st.roots {
			if r == o || underRoot(r, o) {
				nested = true
			}
		}
		if nested {
			continue
		}
		st.roots = append(st.roots, r)
		var rel string
		switch {
		case r == w.root:
		case strings.HasPrefix(r, w.root+"/"):
			rel = r[len(w.root)+1:]
		default:
			continue
		}
		for _, p := range w.walk(rel) {
			text := w.nodes[p].Text
			a := w.abs(p)
			if !validName(a) {
				continue
			}
			switch textVerdict(text) {
			case textYes:
				st.files[a] = text
			case textUnclear:
				return nil, false
			}
		}
	}
	return st, true
}

func (w *world) run(cmd string, args ...string) *Proc {
	o := runOpt{dir: w.root, env: w.env, attr: w.attr}
	if len(w.nodes) > fewFiles {
		o.files = fewFiles
	}
	return w.e.run(o, append([]string{w.e.tool(cmd)}, args...)...)
}

// leftovers lists what lies about besides the index itself.
func (w *world) leftovers() []string {
	var l []string
	for _, d := range []string{filepath.Dir(w.index), w.tmp} {
		ents, err := os.ReadDir(d)
		must(err)
		for _, x := range ents {
			if p := d + "/" + x.Name(); p != w.index {
				l = append(l, p[len(w.e.Dir):])
			}
		}
	}
	return l
}

// checkIndexFile compares the index file with the model by the independent reader.
func (w *world) checkIndexFile(st *mstate) string {
	d, err := os.ReadFile(w.index)
	if err != nil {
		return fmt.Sprintf("no index: %v", err)
	}
	x, err := decodeV2(d)
	if err != nil {
		return fmt.Sprintf("malformed index: %v", err)
	}
	if d := diffX(x, st.index()); d != "" {
		return d
	}
	return ""
}

func sortedNames(files map[string]string) []string {
	var l []string
	for n := range files {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return pathLess(l[i], l[j]) })
	return l
}

// search runs csearch and compares with the model: st says what is indexed.
// Files that have changed since may or may not be selected by the index;
// those that are gone are skipped.
func (w *world) search(expr string, st *mstate, flags ...string) (bad string, m *grepModel) {
	pat := "(?m)" + expr
	lre, err := compileLineRE(pat)
	if err != nil {
		return "", nil
	}
	m = &grepModel{f: grepFlags{N: true}, re: lre, expr: pat}
	noisy := false
	brute := len(flags) > 0 && flags[0] == "-brute"
	for _, n := range sortedNames(st.files) {
		x := w.nodes[strings.TrimPrefix(strings.TrimPrefix(n, w.root), "/")]
		if x != nil && x.Kind == "file" && !utf8.ValidString(x.Text) && textVerdict(x.Text) == textYes {
			return "", nil // accepted as text, but matching is specified for UTF-8 only
		}
		switch {
		case x == nil:
		case x.Kind != "file":
			noisy = true
		case x.Text == st.files[n] || brute:
			m.file(n, x.Text)
		default:
			sub := &grepModel{f: m.f, re: lre, expr: pat}
			sub.file(n, x.Text)
			if out := sub.out.String(); out != "" {
				m.out.alt(outPiece{out, ""})
			}
		}
	}
	args := append(append([]string{"-n"}, flags...), expr)
	p := w.run("csearch", args...)
	if d := m.out.diff(string(p.Out)); d != "" {
		return fmt.Sprintf("csearch %q: %s (%v)", args, d, p), m
	}
	want := 1
	if len(p.Out) > 0 {
		want = 0
	}
	if p.Code != want || len(p.Err) > 0 && !noisy {
		return fmt.Sprintf("csearch %q: %v, want exit %d", args, p, want), m
	}
	return "", m
}

// C07: histories.

type c07Op struct {
	K    string // write, many, rm, mv, mkdir, cindex, roots, reindex, reset, resetadd, old (the index is put into the version 1 format)
	P, Q B      `json:",omitempty"`
	T    B      `json:",omitempty"`
	N    int    `json:",omitempty"` // many: number of files written; roots: number of directories
	Opt  []B    `json:",omitempty"` // cindex flags that change nothing
	Args []B    `json:",omitempty"` // arguments as given on the command line, relative to the tree
}

type c07Case struct {
	Ops   []c07Op
	Exprs []B
	Deep  int `json:",omitempty"`
	Where int `json:",omitempty"` // how the commands find the index, see world.locate
}

// locate has the commands find the index in another way: by a path relative
// to the working directory (1), or in the home directory, given by an
// absolute (2) or an odd path (3).
func (w *world) locate(where int) {
	switch where {
	case 1:
		rel, err := filepath.Rel(w.root, w.index)
		must(err)
		w.env[0] = "CSEARCHINDEX=" + rel
	case 2, 3:
		home := filepath.Dir(w.index)
		w.index = home + "/.csearchindex"
		if where == 3 {
			home += "/../ix/"
		}
		w.env[0] = "CSEARCHINDEX="
		w.env[2] = "HOME=" + home
	}
}

var cliElems = []string{"a", "b", "a.b", "ab", "a b", "é", "lib", "x.go", "a-b", "A", "b.zip"}
var cliHidden = []string{".h", "b~", "#c", "~d", ".git"}
var cliContents = []string{"foo", "bar", "abc", "\n", "xyz", " ", "foobar", "Foo\n", "abcabc", "é", "quux\n", "z", "b\n", "\tabc\n"}

func genRel(t *rapid.T, hidden int, prev []string) string {
	if len(prev) > 0 && chance(t, 55, "reuse") {
		p := pick(t, prev, "prev")
		switch intn(t, 0, 4, "how") {
		case 0, 1:
			return p
		case 2:
			return p + "/" + pick(t, cliElems, "elem")
		case 3:
			if d := parentOf(p); d != "" {
				return d
			}
			return p
		case 4:
			return p + pick(t, []string{"a", ".b", "-", "~", " "}, "ext")
		}
	}
	var l []string
	for n := intn(t, 1, 3, "depth"); n > 0; n-- {
		if chance(t, hidden, "hidden") {
			l = append(l, pick(t, cliHidden, "hiddenelem"))
		} else {
			l = append(l, pick(t, cliElems, "elem"))
		}
	}
	return strings.Join(l, "/")
}

func genCliText(t *rapid.T) string {
	var b strings.Builder
	b.WriteString(genHead(t, false))
	for n := intn(t, 0, 10, "ncontent"); n > 0; n-- {
		b.WriteString(pick(t, cliContents, "content"))
	}
	switch intn(t, 0, 19, "nontext") {
	case 18:
		b.WriteString("\x00")
	case 19:
		b.WriteString("\n\x80a") // never text: no pair ends in a continuation byte after a newline
	}
	return b.String()
}

func genCliExpr(t *rapid.T) string {
	switch intn(t, 0, 9, "exprkind") {
	case 0:
		return pick(t, []string{"", ".", "^", "$", "^$", "a|b", "zzzzz", "(?i)FOO", "[^a]$"}, "stock")
	case 1:
		return genRE(t, alphabets["words"], true)
	default:
		return reFromLine(t, pick(t, cliContents, "c1")+pick(t, cliContents, "c2"), cliContents)
	}
}

// argForm writes a path argument in one of several ways.
func argForm(t *rapid.T, p string) string {
	q := p
	if q == "" {
		q = "."
	}
	switch intn(t, 0, 6, "form") {
	case 1:
		return "./" + q
	case 2:
		return q + "/"
	case 3:
		return "$W/" + p
	case 4:
		if p != "" {
			return p + "/../" + filepath.Base(p)
		}
	case 5:
		return "a/../" + q
	}
	return q
}

// Flags of cindex that do not change what is indexed.
var idleFlags = []string{"-check", "-verbose", "-stats", "-cpuprofile"}

// idleFlag spells one.
func idleFlag(e *Env, s string) string {
	if s == "-cpuprofile" {
		s += "=" + e.Dir + "/cpu.prof"
	}
	return s
}

func genC07(t *rapid.T) c07Case {
	c := c07Case{Deep: genDeep(t, 1800)}
	var prev []string
	path := func() string {
		p := genRel(t, 7, prev)
		prev = append(prev, p)
		return p
	}
	for n := intn(t, 0, 8, "ninitial"); n > 0; n-- {
		c.Ops = append(c.Ops, c07Op{K: "write", P: B(path()), T: B(genCliText(t))})
	}
	args := func() []B {
		var l []B
		for n := intn(t, 1, 3, "nargs"); n > 0; n-- {
			p := ""
			switch intn(t, 0, 9, "argkind") {
			case 0:
			case 1:
				p = genRel(t, 0, nil)
			default:
				if len(prev) > 0 {
					p = pick(t, prev, "argprev")
					for k := intn(t, 0, 2, "up"); k > 0; k-- {
						p = parentOf(p)
					}
				}
			}
			if hiddenName(filepath.Base("/" + p)) {
				p = ""
			}
			l = append(l, B(argForm(t, p)))
		}
		return l
	}
	if !chance(t, 4, "nofirst") {
		c.Ops = append(c.Ops, c07Op{K: "cindex", Args: args()})
	}
	n := intn(t, 1, 12, "nops")
	if chance(t, 2, "long") {
		n = intn(t, 13, 100, "nopslong")
	}
	for ; n > 0; n-- {
		switch intn(t, 0, 16, "op") {
		case 16:
			if chance(t, 40, "many") {
				n := intn(t, 10, 90, "nmany")
				if chance(t, 12, "verymany") {
					n = manyFiles(t, 10)
				}
				c.Ops = append(c.Ops, c07Op{K: "many", P: B(path()), T: B(genCliText(t)), N: n})
			} else if chance(t, 15, "roots") {
				c.Ops = append(c.Ops, c07Op{K: "roots", P: B(path()), T: B(genCliText(t)), N: manyFiles(t, 10)})
			}
		default:
			c.Ops = append(c.Ops, c07Op{K: "write", P: B(path()), T: B(genCliText(t))})
		case 4, 5:
			c.Ops = append(c.Ops, c07Op{K: "rm", P: B(path())})
		case 6:
			c.Ops = append(c.Ops, c07Op{K: "mv", P: B(path()), Q: B(path())})
		case 7, 8, 9, 10:
			c.Ops = append(c.Ops, c07Op{K: "cindex", Args: args()})
		case 11, 12, 13:
			c.Ops = append(c.Ops, c07Op{K: "reindex"})
		case 14:
			if chance(t, 50, "add") {
				c.Ops = append(c.Ops, c07Op{K: "resetadd", Args: args()})
			} else {
				c.Ops = append(c.Ops, c07Op{K: "reset"})
			}
		case 15:
			c.Ops = append(c.Ops, c07Op{K: "mkdir", P: B(path())})
		}
	}
	c.Ops = append(c.Ops, c07Op{K: "reindex"})
	for i := range c.Ops {
		switch c.Ops[i].K {
		case "cindex", "reindex", "resetadd":
			if chance(t, 10, "optflag") {
				c.Ops[i].Opt = append(c.Ops[i].Opt, B(pick(t, idleFlags, "flag")))
			}
		}
	}
	for n := intn(t, 1, 3, "nexprs"); n > 0; n-- {
		c.Exprs = append(c.Exprs, B(genCliExpr(t)))
	}
	if chance(t, 25, "elsewhere") {
		c.Where = intn(t, 1, 3, "where")
	}
	return c
}

// absArgs resolves arguments as the model sees them.
func (w *world) absArgs(args []B) (given, abs []string, ok bool) {
	for _, a := range args {
		s := strings.ReplaceAll(string(a), "$W", w.root)
		if s == "" || strings.HasPrefix(s, "-") || strings.IndexByte(s, 0) >= 0 {
			return nil, nil, false
		}
		given = append(given, s)
		if !strings.HasPrefix(s, "/") {
			s = w.root + "/" + s
		}
		s = filepath.Clean(s)
		if s != w.root && !strings.HasPrefix(s, w.root+"/") || hiddenName(filepath.Base(s)) {
			return nil, nil, false
		}
		abs = append(abs, s)
	}
	return given, abs, len(given) > 0
}

func checkC07(e *Env, c c07Case) Result {
	var r Result
	w := newWorld(e, deepSub("w", c.Deep))
	w.locate(c.Where)
	if c.Where != 0 {
		r.label("index elsewhere")
	}
	var st *mstate // nil: no index
	runs, merges, finds := 0, 0, 0
	olds := false // some index was in the version 1 format
	old := false
	verify := func(what string) string {
		if l := w.leftovers(); len(l) > 0 {
			return fmt.Sprintf("after %s: files left behind: %q", what, l)
		}
		p := w.run("cindex", "-list")
		want := strings.Join(st.roots, "\n") + "\n"
		if len(st.roots) == 0 {
			want = ""
		}
		if p.Code != 0 || string(p.Out) != want {
			return fmt.Sprintf("after %s: cindex -list: %v, want %q", what, p, want)
		}
		if !old {
			if d := w.checkIndexFile(st); d != "" {
				return fmt.Sprintf("after %s: index: %s", what, d)
			}
		}
		for _, x := range c.Exprs {
			bad, m := w.search(string(x), st)
			if bad == "" && len(x)%2 == 0 {
				bad, _ = w.search(string(x), st, "-brute")
			}
			if bad != "" {
				return fmt.Sprintf("after %s: %s", what, bad)
			}
			if m != nil && m.match {
				finds++
			}
		}
		return ""
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d %s %q", i, op.K, op.Args)
		switch op.K {
		case "write":
			w.put(string(op.P), node{Kind: "file", Text: string(op.T)})
		case "mkdir":
			w.put(string(op.P), node{Kind: "dir"})
		case "many":
			for j := 0; j < op.N && j < 3000; j++ {
				w.put(fmt.Sprintf("%s/m%d", op.P, j*j), node{Kind: "file", Text: fmt.Sprintf("%s%d\n", op.T, j%7)})
			}
		case "rm":
			w.remove(string(op.P))
		case "mv":
			w.move(string(op.P), string(op.Q))
		case "reset":
			p := w.run("cindex", "-reset")
			if p.Code != 0 {
				return fail("%s: %v", what, p)
			}
			st = nil
			if _, err := os.Lstat(w.index); err == nil {
				return fail("%s: index still exists", what)
			}
			if l := w.leftovers(); len(l) > 0 {
				return fail("%s: files left behind: %q", what, l)
			}
		case "old":
			if st == nil {
				continue
			}
			writeFile(w.index, string(encodeV1(st.index())))
			old = true
			if bad := verify(what); bad != "" {
				return fail("%s", bad)
			}
			old = false
			r.label("version 1")
			olds = true
		case "cindex", "roots", "resetadd", "reindex":
			if op.K == "roots" {
				if hiddenName(filepath.Base(string(op.P))) {
					return Result{Invalid: true}
				}
				op.Args = nil
				for j := 0; j < op.N && j < 3000; j++ {
					d := fmt.Sprintf("%s/r%d", op.P, j*j)
					w.put(d+"/x", node{Kind: "file", Text: fmt.Sprintf("%s%d\n", op.T, j%7)})
					op.Args = append(op.Args, B(d))
				}
				r.label("many roots")
			}
			var given, roots []string
			if op.K == "reindex" {
				if st == nil {
					continue
				}
				roots = st.roots
			} else {
				var ok bool
				if given, roots, ok = w.absArgs(op.Args); !ok {
					return Result{Invalid: true}
				}
				if op.K == "resetadd" {
					given = append([]string{"-reset"}, given...)
				}
			}
			now, ok := w.indexState(roots)
			if !ok {
				return Result{Invalid: true}
			}
			for _, o := range op.Opt {
				if !contains(idleFlags, string(o)) {
					return Result{Invalid: true}
				}
				given = append([]string{idleFlag(e, string(o))}, given...)
				r.label("with %s", o)
			}
			p := w.run("cindex", given...)
			if p.Code != 0 {
				return fail("%s: cindex failed: %v", what, p)
			}
			runs++
			if st == nil || op.K == "resetadd" {
				st = now
			} else {
				if len(st.files) > 0 {
					merges++
				}
				st = mergeStates(st, now)
				st.roots = sortRoots(st.roots)
			}
			if bad := verify(what); bad != "" {
				return fail("%s", bad)
			}
		default:
			infra("unknown op %q", op.K)
		}
	}
	r.Nontrivial = runs >= 2 && merges > 0 && finds > 0
	if olds {
		r.Nontrivial = merges > 0 && finds > 0
	}
	r.label("runs %d", min(runs, 6))
	if merges > 1 {
		r.label("repeated merges")
	}
	return r
}

func init() {
	rules["C07"] = "histories of up to 12 operations, now and then 100 (write, many files, many directories as arguments, remove, move, mkdir, cindex with 1-3 arguments in several spellings, cindex without arguments, -reset) on a small tree with hidden names, hard links and non-text files, the index named by CSEARCHINDEX (absolute or relative) or lying under HOME, everything sometimes below a path of up to 1800 bytes; after every cindex run the index file is decoded and cindex -list, csearch and csearch -brute are compared with the model; non-trivial: at least two cindex runs, a merge over a non-empty index, and a search that finds something"
	assumptions["C07"] = []string{"roots are not hidden names or symbolic links; clock and disk behave", "files changed since they were indexed may or may not be found"}
	w := func(p, t string) c07Op { return c07Op{K: "write", P: B(p), T: B(t)} }
	ci := func(a ...B) c07Op { return c07Op{K: "cindex", Args: a} }
	reg("C07", "history", opts{quick: 4000, thorough: 120000, recycle: 1000}, genC07, checkC07,
		c07Case{Ops: []c07Op{w("a/x", "foo\n"), w("b/y", "bar\n"), ci("a"), ci("b"), {K: "reindex"}, {K: "reindex"}}, Exprs: []B{"foo", "bar", ""}},
		c07Case{Ops: []c07Op{w("a/x", "foo\n"), w("a/b/y", "bar\n"), ci("a/b", "a", "a"), ci("a/b", "a"), {K: "reindex"}}, Exprs: []B{"foo", "bar", ""}},
	)
}
