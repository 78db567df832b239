package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// C24: zip archives.

type zmember struct {
	Name  B
	T     B    `json:",omitempty"`
	Big   int  `json:",omitempty"`
	Tail  B    `json:",omitempty"`
	Store bool `json:",omitempty"`
	Bad   bool `json:",omitempty"` // its data does not fit its checksum
	Odd   bool `json:",omitempty"` // it is stored by an unknown method

	Mode    uint32 `json:",omitempty"` // permissions
	Comment B      `json:",omitempty"`
	Extra   bool   `json:",omitempty"` // has an extra field
	Old     bool   `json:",omitempty"` // its time is not recorded
}

func (m *zmember) text() string { return strings.Repeat(string(m.T), max(1, m.Big)) + string(m.Tail) }

type c24Op struct {
	K       string    // zip, write, rm, mv, cindex, reindex
	P, Q    B         `json:",omitempty"`
	T       B         `json:",omitempty"`
	Members []zmember `json:",omitempty"`
	Many    int       `json:",omitempty"` // so many further members
	Head    B         `json:",omitempty"` // what precedes the archive proper
	HeadBig int       `json:",omitempty"` // how often
	Abs     bool      `json:",omitempty"` // offsets count from the beginning of the file
	Comment B         `json:",omitempty"` // comment of the archive
	Cut     int       `json:",omitempty"` // bytes cut off the end of the archive
	Zip     bool      `json:",omitempty"`
	Reset   bool      `json:",omitempty"`
	Args    []B       `json:",omitempty"`
}

type c24Case struct {
	Deep  int `json:",omitempty"`
	Ops   []c24Op
	Exprs []B
}

func (op *c24Op) archive() []byte {
	return layZip(op.Members, op.Many, strings.Repeat(string(op.Head), max(1, op.HeadBig)), op.Abs, string(op.Comment))
}

func makeZip(members []zmember) []byte { return layZip(members, 0, "", false, "") }

const manyMember = "one of many\n"

func layZip(members []zmember, many int, head string, abs bool, comment string) []byte {
	var buf bytes.Buffer
	buf.WriteString(head)
	z := zip.NewWriter(&buf)
	if abs {
		z.SetOffset(int64(len(head)))
	}
	must(z.SetComment(comment))
	for i := range many {
		w, err := z.CreateHeader(&zip.FileHeader{Name: fmt.Sprintf("many/%06d", i)})
		must(err)
		io.WriteString(w, manyMember)
	}
	for i := range members {
		m := &members[i]
		h := &zip.FileHeader{Name: string(m.Name), Method: zip.Deflate, Comment: string(m.Comment)}
		if m.Mode != 0 {
			h.SetMode(fs.FileMode(m.Mode & 0777))
		}
		if m.Extra {
			h.Extra = []byte{0x99, 0x99, 4, 0, 'P', 'K', 3, 4}
		}
		if !m.Old {
			h.Modified = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
		}
		if m.Store || strings.HasSuffix(h.Name, "/") {
			h.Method = zip.Store
		}
		text := []byte(m.text())
		if strings.HasSuffix(h.Name, "/") {
			text = nil
		}
		if m.Bad || m.Odd {
			h.Method = zip.Store
			h.CRC32 = crc32.ChecksumIEEE(text)
			if m.Bad {
				h.CRC32 ^= 0xffffffff
			}
			if m.Odd {
				h.Method = 99
			}
			h.CompressedSize64 = uint64(len(text))
			h.UncompressedSize64 = uint64(len(text))
			w, err := z.CreateRaw(h)
			must(err)
			w.Write(text)
			continue
		}
		w, err := z.CreateHeader(h)
		must(err)
		w.Write(text)
	}
	must(z.Close())
	return buf.Bytes()
}

var zipNames = []string{"a", "b", "a/b", "a.b", "dir/x.go", "a/b/c", "./a", "../up", "/abs", "a b", "é", "x.zip", "a~", ".h", "#c", "<b>", "A", "a-", "a/a", "a//b", "a/../b", "./a/./b", "//x", "a\\b"}
var zipOdd = []string{"\x01", "a\nb", "", "a\x01b", "d/", "a/d/", "\xff\xfe", "a\x00"}

func genC24(t *rapid.T) c24Case {
	c := c24Case{Deep: genDeep(t, 1800)}
	archives := []string{"z.zip", "d/z.zip", "d/y.zip", "a.zip", "d/x.zip.d/z.zip", "d/a.zip.zip", "d/.zip.zip"}
	var prev []string
	path := func() string {
		p := genRel(t, 3, prev)
		prev = append(prev, p)
		return p
	}
	mkzip := func() c24Op {
		op := c24Op{K: "zip", P: B(pick(t, archives, "archive"))}
		if len(c.Ops) > 0 && chance(t, 40, "variant") {
			// An earlier archive with some members changed.
			if old := pick(t, c.Ops, "old"); old.K == "zip" && len(old.Members) > 0 {
				if chance(t, 80, "same") {
					op.P = old.P
				}
				op.Members = append([]zmember(nil), old.Members...)
				for n := intn(t, 1, 2, "nchanges"); n > 0 && len(op.Members) > 0; n-- {
					i := intn(t, 0, len(op.Members)-1, "change")
					switch intn(t, 0, 3, "changekind") {
					case 0:
						op.Members = append(op.Members[:i], op.Members[i+1:]...)
					case 1:
						op.Members[i].Odd = true
					case 2:
						op.Members[i].T = B(genCliText(t))
					case 3:
						op.Members[i].Name = B(pick(t, zipNames, "member"))
					}
				}
				return op
			}
		}
		for n := intn(t, 0, 7, "nmembers"); n > 0; n-- {
			m := zmember{Name: B(pick(t, zipNames, "member")), T: B(genCliText(t)), Store: chance(t, 40, "store")}
			if chance(t, 8, "oddname") {
				m.Name = B(pick(t, zipOdd, "odd"))
			}
			if chance(t, 3, "bad") {
				m.Bad = true
			} else if chance(t, 4, "oddmethod") {
				m.Odd = true
			}
			if chance(t, 5, "big") {
				m.Big = intn(t, 1, 5000, "bigtimes")
				if chance(t, 20, "huge") {
					m.T += " some words\n"
					m.Big = min(bigSize(t)/len(m.T), nameBound(c.Deep))
					m.Tail = tailLine
				}
			}
			if chance(t, 15, "attrs") {
				m.Mode = pick(t, []uint32{0644, 0755, 0600, 0111, 0001, 0400}, "mmode")
				m.Comment = B(pick(t, []string{"", "PK\x01\x02", "see also", "\x00\xff"}, "mcomment"))
				m.Extra = chance(t, 50, "mextra")
				m.Old = chance(t, 50, "mold")
			}
			op.Members = append(op.Members, m)
		}
		if chance(t, 12, "head") {
			op.Head = B(pick(t, []string{"#!/bin/sh\nexec unzip $0\n", "MZ\x00\x00", "x", "\x00", "PK", "PK\x03", "\xef\xbb\xbf", "\n\n"}, "headtext"))
			op.HeadBig = 1 << intn(t, 0, 14, "headbig")
			op.Abs = chance(t, 50, "abs")
		}
		if chance(t, 10, "comment") {
			op.Comment = B(strings.Repeat(pick(t, []string{"a comment", "x", "\x00", "PK\x03\x04", "\n"}, "commenttext"), 1<<intn(t, 0, 12, "commentbig")))
		} else if chance(t, 10, "cut") {
			op.Cut = intn(t, 1, 60, "cutby")
		}
		return op
	}
	args := func() []B {
		p := ""
		switch intn(t, 0, 3, "argkind") {
		case 1:
			p = pick(t, archives[:6], "argarchive")
		case 2:
			p = "d"
		}
		return []B{B(argForm(t, p))}
	}
	index := func() {
		op := c24Op{K: "reindex", Zip: chance(t, 75, "zip")}
		if chance(t, 60, "withargs") {
			op.K = "cindex"
			op.Args = args()
			op.Reset = chance(t, 10, "reset")
		}
		c.Ops = append(c.Ops, op)
	}
	for n := intn(t, 1, 3, "nzips"); n > 0; n-- {
		c.Ops = append(c.Ops, mkzip())
	}
	c.Ops = append(c.Ops, c24Op{K: "write", P: B(path()), T: B(genCliText(t))})
	c.Ops = append(c.Ops, c24Op{K: "cindex", Zip: true, Args: args()})
	for n := intn(t, 0, 6, "nops"); n > 0; n-- {
		switch intn(t, 0, 7, "op") {
		case 0, 1:
			c.Ops = append(c.Ops, mkzip())
		case 2:
			c.Ops = append(c.Ops, c24Op{K: "write", P: B(path()), T: B(genCliText(t))})
		case 3:
			c.Ops = append(c.Ops, c24Op{K: "rm", P: B(pick(t, archives, "rm"))})
		case 4:
			c.Ops = append(c.Ops, c24Op{K: "write", P: B(pick(t, archives, "plain")), T: B(genCliText(t))})
			if chance(t, 30, "upper") {
				c.Ops[len(c.Ops)-1].P = B(pick(t, []string{"d/b.ZIP", "b.Zip", "d/zip", "d/a.zip~x"}, "upper"))
			}
		case 5:
			c.Ops = append(c.Ops, c24Op{K: "write", P: B(pick(t, archives[:6], "plain") + pick(t, []string{"!", "x", ".txt", "/f"}, "suffix")), T: B(genCliText(t))})
		default:
			index()
		}
	}
	index()
	for n := intn(t, 1, 3, "nexprs"); n > 0; n-- {
		c.Exprs = append(c.Exprs, B(genCliExpr(t)))
	}
	if chance(t, 10, "tailexpr") {
		c.Exprs = append(c.Exprs, tailExpr)
	}
	for _, op := range c.Ops {
		for _, m := range op.Members {
			if m.Tail != "" {
				c.Exprs = []B{tailExpr}
			}
		}
	}
	return c
}

// zipModel is what archives hold that are known to be valid.
type zipModel struct {
	text  map[string]string // indexed members and their contents
	there map[string]bool   // members that can be opened
	dirs  bool              // has directory entries, which may or may not be listed
	odd   []string          // members that must be reported
	valid bool
}

func modelZip(members []zmember) (z zipModel, ok bool) {
	z.valid = true
	z.text = map[string]string{}
	z.there = map[string]bool{}
	for i := range members {
		m := &members[i]
		n := string(m.Name)
		if strings.HasSuffix(n, "/") {
			z.dirs = true
			continue
		}
		// Later members supersede earlier ones of the same name.
		delete(z.text, n)
		delete(z.there, n)
		if !validName(n) {
			continue
		}
		if m.Odd {
			z.odd = append(z.odd, n)
			continue
		}
		z.there[n] = true
		if m.Bad {
			continue
		}
		switch textVerdict(m.text()) {
		case textYes:
			z.text[n] = m.text()
		case textUnclear:
			return z, false
		}
	}
	return z, true
}

func checkC24(e *Env, c c24Case) Result {
	var r Result
	w := newWorld(e, deepSub("w", c.Deep))
	zips := map[string]*zipModel{} // by content
	var st *mstate
	members, runs, found := 0, 0, 0
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d %s %q zip=%v", i, op.K, op.Args, op.Zip)
		switch op.K {
		case "zip":
			data := string(op.archive())
			z, ok := modelZip(op.Members)
			for i := range op.Many {
				n := fmt.Sprintf("many/%06d", i)
				z.text[n], z.there[n] = manyMember, true
			}
			if op.Head != "" {
				r.label("something before the archive")
			}
			if op.Comment != "" {
				r.label("comment")
			}
			if op.Many > 65535 {
				r.label("more than 65535 members")
			}
			if !ok {
				return Result{Invalid: true}
			}
			if op.Cut > 0 {
				data = data[:max(0, len(data)-op.Cut)]
				z = zipModel{}
			}
			if w.put(string(op.P), node{Kind: "file", Text: data}) {
				zips[data] = &z
			}
		case "write":
			w.put(string(op.P), node{Kind: "file", Text: string(op.T)})
		case "rm":
			w.remove(string(op.P))
		case "mv":
			w.move(string(op.P), string(op.Q))
		case "cindex", "reindex":
			var given, roots []string
			if op.K == "reindex" {
				if st == nil {
					continue
				}
				roots = st.roots
			} else {
				var ok bool
				if given, roots, ok = w.absArgs(op.Args); !ok {
					return Result{Invalid: true}
				}
			}
			now, ok := w.indexState(roots)
			if !ok {
				return Result{Invalid: true}
			}
			var badZips []string
			dirs := false
			var odd [][2]string
			if op.Zip {
				for p := range w.nodes {
					a := w.abs(p)
					if !strings.HasSuffix(a, ".zip") || w.nodes[p].Kind != "file" {
						continue
					}
					in := false
					for _, root := range now.roots {
						if rel := strings.TrimPrefix(strings.TrimPrefix(root, w.root), "/"); root == w.root || strings.HasPrefix(root, w.root+"/") {
							for _, q := range w.walk(rel) {
								in = in || q == p
							}
						}
					}
					if !in {
						continue
					}
					delete(now.files, a)
					z := zips[w.nodes[p].Text]
					if z == nil || !z.valid {
						badZips = append(badZips, a)
						continue
					}
					dirs = dirs || z.dirs
					for _, n := range z.odd {
						odd = append(odd, [2]string{a, n})
					}
					for n, text := range z.text {
						now.files[a+"\x01"+n] = text
						members++
					}
				}
				given = append([]string{"-zip"}, given...)
			}
			if op.Reset && op.K == "cindex" {
				given = append([]string{"-reset"}, given...)
			}
			p := w.run("cindex", given...)
			if p.Code != 0 {
				return fail("%s: cindex failed: %v", what, p)
			}
			runs++
			for _, a := range badZips {
				if !mentions(string(p.Err), a) {
					return fail("%s: invalid archive %q not reported: %v", what, a, p)
				}
				r.label("invalid archive")
			}
			for _, o := range odd {
				if !mentions(string(p.Err), o[0]) || !mentions(string(p.Err), o[1]) {
					return fail("%s: member %q of %q cannot be opened, which was not reported: %v", what, o[1], o[0], p)
				}
				r.label("unknown method")
			}
			if st == nil || op.Reset && op.K == "cindex" {
				st = now
			} else {
				st = mergeStates(st, now)
				st.roots = sortRoots(st.roots)
			}
			if dirs {
				r.label("directory entries")
			}
			if d := w.checkZipIndex(st); d != "" {
				return fail("%s: index: %s (%v)", what, d, p)
			}
			if l := w.leftovers(); len(l) > 0 {
				return fail("%s: files left behind: %q", what, l)
			}
			for _, x := range c.Exprs {
				bad, m := w.searchZip(string(x), st, zips)
				if bad != "" {
					return fail("%s: %s", what, bad)
				}
				if m != nil && m.match {
					found++
				}
			}
		default:
			infra("unknown op %q", op.K)
		}
	}
	r.Nontrivial = members > 0 && found > 0
	if runs > 1 {
		r.label("indexed repeatedly")
	}
	return r
}

// checkZipIndex compares the index with the model, overlooking names of
// directory entries (which have no content).
func (w *world) checkZipIndex(st *mstate) string {
	x, err := decodeV2(readAll(w.index))
	if err != nil {
		return fmt.Sprintf("malformed index: %v", err)
	}
	id := make([]int, len(x.Names))
	y := &xindex{Roots: x.Roots, Post: map[uint32][]int{}}
	for i, n := range x.Names {
		id[i] = -1
		if strings.Contains(n, ".zip\x01") && strings.HasSuffix(n, "/") {
			continue
		}
		id[i] = len(y.Names)
		y.Names = append(y.Names, n)
	}
	for t, l := range x.Post {
		for _, i := range l {
			if id[i] < 0 {
				return fmt.Sprintf("directory entry %q has content", x.Names[i])
			}
			y.Post[t] = append(y.Post[t], id[i])
		}
	}
	return diffX(y, st.index())
}

// searchZip is search with archives: members changed since they were indexed
// may or may not be selected.
func (w *world) searchZip(expr string, st *mstate, zips map[string]*zipModel) (bad string, m *grepModel) {
	pat := "(?m)" + expr
	lre, err := compileLineRE(pat)
	if err != nil {
		return "", nil
	}
	m = &grepModel{f: grepFlags{N: true}, re: lre, expr: pat}
	noisy := false
	for _, n := range sortedNames(st.files) {
		file, member, isZip := strings.Cut(n, "\x01")
		x := w.nodes[strings.TrimPrefix(strings.TrimPrefix(file, w.root), "/")]
		if x == nil || x.Kind != "file" {
			if x != nil && !isZip {
				noisy = true
			}
			continue
		}
		text, sure := x.Text, x.Text == st.files[n]
		if isZip {
			z := zips[x.Text]
			if z == nil || !z.valid {
				continue
			}
			var ok bool
			if text, ok = z.text[member]; !ok {
				if !z.there[member] {
					continue // gone, or cannot be opened any more
				}
				// Not text any more, or damaged.
				return "", nil
			}
			sure = text == st.files[n]
		}
		if !utf8.ValidString(text) && textVerdict(text) == textYes {
			return "", nil // accepted as text, but matching is specified for UTF-8 only
		}
		if sure {
			m.file(n, text)
			continue
		}
		if textVerdict(text) != textYes {
			return "", nil
		}
		sub := &grepModel{f: m.f, re: lre, expr: pat}
		sub.file(n, text)
		if out := sub.out.String(); out != "" {
			m.out.alt(outPiece{out, ""})
		}
	}
	p := w.run("csearch", "-n", expr)
	if d := m.out.diff(string(p.Out)); d != "" {
		return fmt.Sprintf("csearch -n %q: %s (%v)", expr, d, p), m
	}
	want := 1
	if len(p.Out) > 0 {
		want = 0
	}
	if p.Code != want || len(p.Err) > 0 && !noisy {
		return fmt.Sprintf("csearch -n %q: %v, want exit %d", expr, p, want), m
	}
	return "", m
}

func init() {
	rules["C24"] = "histories over a tree (sometimes below a path of up to 1800 bytes) with up to five archives (stored and deflated members, repeated, odd and malformed names, non-text and damaged members, huge members with something particular at the end, unknown compression methods, comments, extra fields, text before the archive, truncated archives, one of more than 65535 members, plain files named .zip), indexed with and without -zip, changed, removed and indexed again; after every cindex run the index file is decoded and csearch compared with the model; non-trivial: members were indexed and something was found"
	assumptions["C24"] = []string{"of members with the same name the last counts; directory entries may be listed or not; names end in .zip in lower case"}
	z := func(p string, m ...zmember) c24Op { return c24Op{K: "zip", P: B(p), Members: m} }
	ci := func(zip bool, a ...B) c24Op { return c24Op{K: "cindex", Zip: zip, Args: a} }
	reg("C24", "zip", opts{quick: 5000, thorough: 120000, recycle: 1000}, genC24, checkC24,
		c24Case{Ops: []c24Op{z("z.zip", zmember{Name: "a", T: "foo\n"}, zmember{Name: "a", T: "bar\n"}, zmember{Name: "b\n", T: "quux"}), ci(true, "z.zip"), ci(true, "z.zip"), ci(true, ".")}, Exprs: []B{"foo", "bar", ""}},
		c24Case{Ops: []c24Op{{K: "zip", P: "z.zip", Many: 66500, Members: []zmember{{Name: "a", T: "foo\n"}, {Name: "z", T: "foo\n"}}}, ci(true, ".")}, Exprs: []B{"foo"}},
		c24Case{Ops: []c24Op{z("d/z.zip", zmember{Name: "a/b", T: "foo\n"}), {K: "write", P: "d/z.zipx", T: "bar\n"}, ci(true, "."), ci(false, "d"), ci(true, "d")}, Exprs: []B{"foo", "bar", ""}},
	)
}
