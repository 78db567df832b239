package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// C23: which files of a tree are indexed.

type tnode struct {
	P       B
	K       string
	T       B         `json:",omitempty"`
	To      B         `json:",omitempty"`
	Big     int       `json:",omitempty"` // T is repeated so many times
	Tail    B         `json:",omitempty"` // and followed by this
	Many    int       `json:",omitempty"` // K is "many": the number of files in this directory
	Mode    uint32    `json:",omitempty"`
	Lock    bool      `json:",omitempty"` // Mode applies (it may be 0)
	Members []zmember `json:",omitempty"` // K is "zip"
	Bits    uint32    `json:",omitempty"` // a mode that still lets the owner read (and search)
}

func (n *tnode) text() string { return strings.Repeat(string(n.T), max(1, n.Big)) + string(n.Tail) }

// bigSize draws a size in bytes, each power of two from 64 KB to 32 MB being
// as likely.
func bigSize(t *rapid.T) int {
	n := 1 << intn(t, 16, 25, "bigsize")
	return n + intn(t, -n/4, n/4, "bigoff")
}

const tailLine = "at the very end: qzx#vkj\n"
const tailExpr = "q(zx|y)#vkj$"

// manyFiles draws a number of files for one directory.
func manyFiles(t *rapid.T, log int) int {
	n := 1 << intn(t, 5, log, "manysize")
	return n + intn(t, -1, n-1, "manyoff")
}

type c23Case struct {
	Deep  int `json:",omitempty"`
	Tree  []tnode
	Args  []B
	Flags []string `json:",omitempty"`
	User  bool     `json:",omitempty"` // run as an unprivileged user
	Under string   // where the tree lies
	After []tnode  `json:",omitempty"` // further files, then indexed again without arguments
}

var oddElems = []string{"a\nb", "\x01", "tab\tx", "\xff\xfe", "-n", "-reset", "q\"'", "<b>", "%s", "a\\b", "\x7f", " lead", "trail ", "é", "日本", "a&b", "$HOME", "*", "a~b", "a.b~c", "x#", "x.", "..x", "...", "~", "#", "=~=", "a~", ".x", "#x#", "~x", "\u200b", "con"}

// Names that programs like to treat specially; here they are names like any other.
var commonElems = []string{"node_modules", "vendor", "testdata", "core", "x_test.go", "a.min.js", "LICENSE", "a.exe", "a.o", "_obj", "CVS", "RCS", "target", "bin", "build", "x.png", "Makefile", "a.gz", "a.tar", "a.jar", "a.ZIP", "a.zip.bak", "go.sum", "package-lock.json", "lost+found", "Thumbs.db", "a.swp", "a.orig", "tags", "csearchindex", "out", "index", "x,v", "a.pb.go", "BUILD", "third_party", "proc", "_", "%00", "a:b", "NUL", "index~1"}

func genC23(t *rapid.T) c23Case {
	var c c23Case
	var prev []string
	elem := func() string {
		switch intn(t, 0, 9, "elemkind") {
		case 0, 1:
			return pick(t, oddElems, "odd")
		case 2:
			return pick(t, cliHidden, "hidden")
		case 4:
			return pick(t, commonElems, "common")
		case 3:
			if chance(t, 20, "longelem") {
				n := intn(t, 20, 250, "elemlen")
				return longPrefix(n + 1)[1:min(n, 65)] + strings.Repeat("w", max(0, n-64))
			}
		}
		return pick(t, cliElems, "elem")
	}
	path := func() string {
		var l []string
		if len(prev) > 0 && chance(t, 60, "reuse") {
			p := pick(t, prev, "prev")
			if chance(t, 50, "sibling") {
				p = parentOf(p)
			}
			if p != "" {
				l = append(l, p)
			}
		}
		for n := intn(t, 1, 3, "depth"); n > 0; n-- {
			l = append(l, elem())
		}
		p := strings.Join(l, "/")
		if len(p) < 500 && chance(t, 2, "nest") {
			// Nested deeply, all but the last element being short.
			p = strings.Repeat(pick(t, []string{"a/", "b/", "x/", "bb/"}, "nestelem"), min(300, manyFiles(t, 8)/2)) + p
		}
		prev = append(prev, p)
		return p
	}
	c.User = chance(t, 25, "user")
	nodes := func(lo, hi int) []tnode {
		var l []tnode
		for n := intn(t, lo, hi, "nnodes"); n > 0; n-- {
			x := tnode{P: B(path()), K: "file"}
			switch intn(t, 0, 19, "kind") {
			case 0, 1:
				x.K = "dir"
			case 2:
				x.K = "link"
				x.To = B(pick(t, append([]string{".", "..", "a", "/", "missing", "/dev/null", "b"}, prev...), "to"))
			case 3:
				x.K = pick(t, []string{"fifo", "sock"}, "special")
				if len(prev) > 1 && chance(t, 50, "hard") {
					x.K = "hard"
					x.To = B(pick(t, prev, "hardto"))
				}
			case 4:
				x.T = B(strings.Repeat("v", intn(t, 1990, 2010, "long")))
				if chance(t, 50, "nl") {
					x.T += "\n"
				}
			case 5:
				x.T = B(genCliText(t) + pick(t, []string{"\x00", "\xff", "a\x80", "\xc3(", "\xf8", "\xc3"}, "bad") + genCliText(t))
			case 6:
				x.T = B(genCliText(t) + "\n")
				x.Big = intn(t, 1, 40000, "big")
				if len(x.T)*x.Big > 3<<20 {
					x.Big = 100
				}
				if chance(t, 30, "tail") {
					x.Tail = tailLine
					if chance(t, 15, "huge") {
						x.T = B(genCliText(t) + " some words\n")
						x.Big = min(bigSize(t)/len(x.T), nameBound(c.Deep))
					}
				}
			case 7:
				x.T = B(bulkText(uint64(intn(t, 0, 1000, "seed")), intn(t, 100, 30000, "bulklen"), 90))
			default:
				x.T = B(genCliText(t))
			}
			if chance(t, 1, "many") {
				x = tnode{P: x.P, K: "many", T: B(genCliText(t)), Many: manyFiles(t, 10)}
			}
			if c.User && (x.K == "file" || x.K == "dir") && chance(t, 30, "lock") {
				x.Lock = true
				x.Mode = pick(t, []uint32{0, 0444, 0111, 0222, 0333}, "mode")
			} else if (x.K == "file" || x.K == "dir") && chance(t, 12, "bits") {
				x.Bits = pick(t, []uint32{04755, 02755, 01755, 07777, 04644, 02700, 01600, 0400, 0777}, "bitsmode")
			}
			l = append(l, x)
		}
		return l
	}
	c.Tree = nodes(1, 14)
	for n := intn(t, 1, 3, "nargs"); n > 0; n-- {
		p := ""
		if !chance(t, 40, "root") {
			p = string(pick(t, c.Tree, "argnode").P)
			for k := intn(t, 0, 2, "up"); k > 0; k-- {
				p = parentOf(p)
			}
		}
		if chance(t, 10, "missing") {
			p = pick(t, []string{"missing", "a/missing/x", "missing/b"}, "missingname")
		}
		if hiddenName(filepath.Base("/" + p)) {
			p = ""
		}
		f := argForm(t, p)
		if strings.HasPrefix(f, "-") {
			f = "./" + f
		}
		c.Args = append(c.Args, B(f))
	}
	for _, f := range []string{"-reset", "-verbose", "-check", "-stats", "-zip"} {
		if chance(t, 15, f) {
			c.Flags = append(c.Flags, f)
		}
	}
	if chance(t, 2, "prof") {
		c.Flags = append(c.Flags, "-cpuprofile")
	}
	c.Deep = genDeep(t, 1500)
	c.Under = pick(t, []string{"w", ".w/v", "w~/v", "x y/#w/v"}, "under")
	if chance(t, 30, "after") {
		c.After = nodes(1, 4)
	}
	return c
}

// nobody returns the attributes for running commands without privileges, or
// nil if that does not work here.
func (e *Env) nobody() *syscall.SysProcAttr {
	if a, ok := e.persistent["nobody"]; ok {
		x, _ := a.(*syscall.SysProcAttr)
		return x
	}
	a := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	e.persistent["nobody"] = (*syscall.SysProcAttr)(nil)
	if os.Getuid() != 0 {
		return nil
	}
	dir := e.Dir + "/probe"
	must(os.Mkdir(dir, 0777))
	must(os.Chmod(dir, 0777))
	defer os.RemoveAll(dir)
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		p := e.run(runOpt{dir: dir, env: []string{"CSEARCHINDEX=" + dir + "/i", "TMPDIR=" + dir}, attr: a}, e.tool("cindex"), dir)
		return p.Code == 0
	}()
	if ok {
		e.persistent["nobody"] = a
		return a
	}
	return nil
}

func (w *world) build(tree []tnode) {
	for i := range tree {
		n := &tree[i]
		if n.K == "zip" {
			w.put(string(n.P), node{Kind: "file", Text: string(makeZip(n.Members))})
			continue
		}
		if n.K == "many" {
			for j := 0; j < n.Many; j++ {
				w.put(fmt.Sprintf("%s/m%d", n.P, j), node{Kind: "file", Text: fmt.Sprintf("%s%d\n", n.T, j)})
			}
			continue
		}
		if w.put(string(n.P), node{Kind: n.K, Text: n.text(), To: string(n.To)}) && n.Bits != 0 && !w.nodes[string(n.P)].Hard && (n.K == "file" || n.K == "dir") {
			bits := n.Bits | 0444
			if n.K == "dir" {
				bits |= 0555
			}
			must(syscall.Chmod(w.abs(string(n.P)), bits))
		}
	}
}

// lock applies modes; nothing below can be changed afterwards.
func (w *world) lock(tree []tnode) {
	for i := range tree {
		n := &tree[i]
		x := w.nodes[string(n.P)]
		if n.Lock && x != nil && x.Kind == n.K && !x.Hard && (x.Kind == "file" || x.Kind == "dir") && n.Mode&^0777 == 0 {
			must(os.Chmod(w.abs(string(n.P)), os.FileMode(n.Mode)))
			x.Mode = os.FileMode(n.Mode) | os.ModeIrregular // non-zero
		}
	}
}

func (w *world) unlock() {
	for p, x := range w.nodes {
		if x.Mode != 0 {
			x.Mode = 0
			if x.Kind == "dir" {
				os.Chmod(w.abs(p), 0755)
			} else {
				os.Chmod(w.abs(p), 0644)
			}
		}
	}
}

// mentions reports whether the log tells of the path, plainly or quoted.
func mentions(log, path string) bool {
	q := strconv.Quote(path)
	return strings.Contains(log, path) || strings.Contains(log, q[1:len(q)-1])
}

func checkC23(e *Env, c c23Case) Result {
	var r Result
	if !validRel(c.Under) {
		return Result{Invalid: true}
	}
	w := newWorld(e, deepSub(c.Under, c.Deep))
	zip := false
	for _, f := range c.Flags {
		switch f {
		case "-zip":
			zip = true
		case "-reset", "-verbose", "-check", "-stats", "-cpuprofile":
		default:
			return Result{Invalid: true}
		}
	}
	if c.User {
		if w.attr = e.nobody(); w.attr == nil {
			r.label("no unprivileged user")
			return r
		}
		for _, d := range []string{w.root, w.tmp, filepath.Dir(w.index), e.Dir} {
			must(os.Chmod(d, 0777))
		}
		defer w.unlock()
	}
	w.build(c.Tree)
	given, roots, ok := w.absArgs(c.Args)
	if !ok {
		return Result{Invalid: true}
	}
	for _, a := range roots {
		if zip && strings.HasSuffix(a, ".zip") {
			return Result{Invalid: true}
		}
	}
	if zip {
		for p, n := range w.nodes {
			if n.Kind == "file" && strings.HasSuffix(p, ".zip") {
				return Result{Invalid: true}
			}
		}
	}
	if c.User {
		w.lock(c.Tree)
	}
	round := func(what string, args []string) string {
		st, ok := w.indexState(roots)
		if !ok {
			r.Invalid = true
			return ""
		}
		p := w.run("cindex", args...)
		if p.Code != 0 {
			return fmt.Sprintf("%s: cindex %q: %v", what, args, p)
		}
		if bad := w.checkIndexFile(st); bad != "" {
			return fmt.Sprintf("%s: cindex %q: %s (%v)", what, args, bad, p)
		}
		// What must be reported.
		log := string(p.Err)
		for _, a := range st.roots {
			rel := strings.TrimPrefix(strings.TrimPrefix(a, w.root), "/")
			if w.nodes[rel] == nil && !mentions(log, a) {
				return fmt.Sprintf("%s: missing path %q not reported: %q", what, a, clip(log))
			}
			reach := w.walk(rel)
			for _, q := range reach {
				if f := w.abs(q); !validName(f) && !mentions(log, f) {
					return fmt.Sprintf("%s: file %q has a malformed name but was not reported: %q", what, f, clip(log))
				}
				r.Nontrivial = true
			}
			in := map[string]bool{}
			for _, q := range reach {
				in[q] = true
			}
			for q, n := range w.nodes {
				under := q == rel || rel == "" || strings.HasPrefix(q, rel+"/")
				if n.Kind == "file" && under && n.Mode != 0 && n.Mode&0400 == 0 {
					// Reported if it would be indexed but for its mode.
					m := n.Mode
					n.Mode = 0
					would := false
					for _, z := range w.walk(rel) {
						would = would || z == q
					}
					n.Mode = m
					if f := w.abs(q); would && !mentions(log, f) {
						return fmt.Sprintf("%s: unreadable file %q not reported: %q", what, f, clip(log))
					}
					if would {
						r.label("unreadable file")
					}
				}
				if n.Kind == "file" && under && !in[q] {
					r.label("file left out")
				}
			}
		}
		return ""
	}
	for _, a := range roots {
		for p := filepath.Dir(a); len(p) >= len(w.root); p = filepath.Dir(p) {
			rel := strings.TrimPrefix(strings.TrimPrefix(p, w.root), "/")
			if n := w.nodes[rel]; n != nil && n.Mode != 0 && n.Mode&0100 == 0 {
				return Result{Invalid: true} // argument within a locked directory
			}
		}
	}
	if bad := round("first run", append(c.flags(e), given...)); bad != "" {
		return fail("%s", bad)
	}
	if r.Invalid {
		return r
	}
	if len(c.After) > 0 {
		w.unlock()
		w.build(c.After)
		sort.Strings(roots)
		if bad := round("second run", []string{}); bad != "" {
			return fail("%s", bad)
		}
		if r.Invalid {
			return Result{Invalid: true}
		}
		r.label("indexed again")
	}
	if c.User {
		r.label("unprivileged")
	}
	return r
}

func init() {
	rules["C23"] = "trees of up to 14 nodes with plain, odd (control characters, invalid UTF-8, markup, leading dashes) and hidden names, directories (now and then with up to 2000 files, or nested up to 256 deep), hard and symbolic links, files of up to 40 MB with something particular at the end, fifos, sockets, non-text and large files, set-id, sticky and other mode bits, files without permissions in runs as an unprivileged user; sometimes all below a path of up to 1500 bytes; 1-3 arguments in several spellings, also missing ones, any of -reset -verbose -check -stats -zip; sometimes grown and indexed again; the index file is decoded and compared with the model; non-trivial: some file is visited"
	assumptions["C23"] = []string{"path arguments are not themselves hidden names or symbolic links; the tree does not change during the run"}
	reg("C23", "walk", opts{quick: 9000, thorough: 250000, recycle: 1500}, genC23, checkC23,
		c23Case{Tree: []tnode{{P: "a", K: "file", T: "foo"}}, Args: []B{"a", "missing/.x", "a/b"}, Under: "w"},
		c23Case{Tree: []tnode{{P: "a/b", K: "file", T: "foo"}, {P: "a.b", K: "file", T: "bar"}, {P: "a/.c/d", K: "file", T: "x"}, {P: "a/x~", K: "file"}}, Args: []B{"a", "."}, Under: ".w/v"},
	)
}

func (c c23Case) flags(e *Env) []string {
	var l []string
	for _, f := range c.Flags {
		l = append(l, idleFlag(e, f))
	}
	return l
}
