package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
	"pgregory.net/rapid"
)

// Generators for names and contents.

var nameTokens = []string{"a", "b", "ab", ".", "-", " ", "!", "x", "A", "0", "é", "日", "~", "\xff", "a.b", "lib", "src", "_", "+", "#", "\\", "\"", "<", "%", "zz"}

// genElem makes one path element; plain elements are never hidden.
func genElem(t *rapid.T) string {
	n := intn(t, 1, 3, "nelem")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, nameTokens, "elem"))
	}
	s := b.String()
	if s == "." || s == ".." {
		return "a"
	}
	return s
}

// genPathUnder makes a path below root, reusing elements of earlier paths.
func genPathUnder(t *rapid.T, root string, prev []string) string {
	if root == "/" {
		root = ""
	}
	if len(prev) > 0 && chance(t, 60, "reuse") {
		p := pick(t, prev, "prev")
		if strings.HasPrefix(p, root+"/") || root == "" {
			switch intn(t, 0, 3, "reusehow") {
			case 0:
				return p + pick(t, nameTokens, "ext")
			case 1:
				return filepath.Dir(p) + "/" + genElem(t)
			case 2:
				return p + "/" + genElem(t)
			case 3:
				d := filepath.Dir(p)
				if below(d, root) && d != root && d != "/" {
					return d + genElem(t)
				}
			}
		}
	}
	p := root
	for n := intn(t, 1, 3, "depth"); n > 0; n-- {
		p += "/" + genElem(t)
	}
	return p
}

var contentTokens = []string{"abc", "a", "b", "ab", "\n", " ", "xyz", "é", "日本", "hello world\n", "bca", "\x01", "\x7f", "func main() {\n", "\t", "zzzzzz", "𐐀", "q"}

func genContent(t *rapid.T, max int) string {
	if chance(t, 8, "emptyfile") {
		return ""
	}
	var b strings.Builder
	b.WriteString(genHead(t, false))
	for n := intn(t, 1, max, "ncontent"); n > 0; n-- {
		b.WriteString(pick(t, contentTokens, "content"))
	}
	return b.String()
}

// splitmix is a fixed hash used to expand a few drawn numbers into bulk data.
func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// bulkText expands to n bytes of lines over k letters.
func bulkText(seed uint64, n, k int) string {
	b := make([]byte, n)
	for i := range b {
		seed = splitmix(seed)
		if i%61 == 60 {
			b[i] = '\n'
		} else {
			b[i] = byte('!' + seed%uint64(k))
		}
	}
	return string(b)
}

// fileSet is a set of names (distinct in path order) with contents.
func genFiles(t *rapid.T, roots []string, max, maxTok int) []mfile {
	return genFilesN(t, roots, 0, max, maxTok)
}

func genFilesN(t *rapid.T, roots []string, min, max, maxTok int) []mfile {
	n := intn(t, min, max, "nfiles")
	var out []mfile
	seen := map[string]bool{}
	var prev []string
	for i := 0; i < n; i++ {
		p := genPathUnder(t, pick(t, roots, "root"), prev)
		if k := pathKey(p); !seen[k] {
			seen[k] = true
			out = append(out, mfile{B(p), B(genContent(t, maxTok))})
			prev = append(prev, p)
		}
	}
	return out
}

// genRootSet makes a set of roots none of which lies below another.
func genRootSet(t *rapid.T, min, max int) []string {
	if chance(t, 3, "slash") {
		return []string{"/"}
	}
	pool := []string{"/a", "/a/b", "/b", "/a", "/a/b", "/a.b", "/b", "/a/b/c", "/ab", "/a/c", "/b.zip", "/a/b.c", "/é"}
	var roots []string
	for n := intn(t, min, max, "nroots"); n > 0; n-- {
		r := pick(t, pool, "root")
		ok := true
		for _, o := range roots {
			if below(r, o) || below(o, r) {
				ok = false
			}
		}
		if ok {
			roots = append(roots, r)
		}
	}
	return roots
}

func sortRoots(l []string) []string {
	l = append([]string(nil), l...)
	sort.Slice(l, func(i, j int) bool { return pathLess(l[i], l[j]) })
	return l
}

func toB(l []string) []B {
	var out []B
	for _, s := range l {
		out = append(out, B(s))
	}
	return out
}

func fromB(l []B) []string {
	var out []string
	for _, s := range l {
		out = append(out, string(s))
	}
	return out
}

// C03

type bulkFile struct {
	NameLen int // extra bytes in the name
	Size    int
	Letters int
	Seed    uint64
}

type c03Case struct {
	Roots  []B
	Files  []mfile
	Bulk   []bulkFile `json:",omitempty"`
	Many   int        `json:",omitempty"` // number of small additional files
	NRoot  int        `json:",omitempty"` // number of additional roots
	Pre    int        `json:",omitempty"` // length of a common prefix of all paths
	Spill  int        // entries held in memory before spilling; 0: default
	Ranges [][2]int
}

func (c *c03Case) files() []mfile {
	files := append([]mfile(nil), c.Files...)
	for i, b := range c.Bulk {
		name := fmt.Sprintf("/bulk/%03d", i)
		if b.NameLen > 0 {
			name += strings.Repeat("n", b.NameLen-1) + "e"
		}
		files = append(files, mfile{B(name), B(bulkText(b.Seed, b.Size, b.Letters))})
	}
	for i := 0; i < c.Many; i++ {
		h := splitmix(uint64(i) + uint64(c.Many)<<32)
		files = append(files, mfile{B(fmt.Sprintf("/many/d%d/f%05d", h%7, i)), B(fmt.Sprintf("file%d\n%x %d", i%13, h%97, i))})
	}
	for i := range files {
		files[i].Name = B(under(c.Pre, string(files[i].Name)))
	}
	return files
}

func (c *c03Case) roots() []string {
	var l []string
	for _, r := range c.Roots {
		l = append(l, under(c.Pre, string(r)))
	}
	for i := 0; i < c.NRoot; i++ {
		l = append(l, under(c.Pre, fmt.Sprintf("/r/%06d", i)))
	}
	return l
}

// under moves the path p below a long path of n bytes, if n is not 0.
func under(n int, p string) string {
	if n == 0 {
		return p
	}
	if p == "/" {
		p = ""
	}
	return longPrefix(n) + p
}

func genC03(t *rapid.T) c03Case {
	var c c03Case
	roots := genRootSet(t, 0, 4)
	c.Roots = toB(roots)
	c.Pre = genDeep(t, 100000)
	nr := roots
	if len(nr) == 0 {
		nr = []string{"/a", "/b"}
	}
	c.Files = genFiles(t, nr, 40, 12)
	if chance(t, 15, "many") {
		c.Many = intn(t, 1, 120, "nmany")
	}
	switch intn(t, 0, 3, "spill") {
	case 1:
		c.Spill = intn(t, 1, 8, "spillsmall")
	case 2:
		c.Spill = intn(t, 9, 200, "spillmid")
	case 3:
		c.Spill = intn(t, 200, 3000, "spillbig")
	}
	for n := intn(t, 0, 4, "nranges"); n > 0; n-- {
		lo := intn(t, 0, 60, "lo")
		c.Ranges = append(c.Ranges, [2]int{lo, lo + intn(t, 0, 40, "len")})
	}
	return c
}

func genC03Big(t *rapid.T) c03Case {
	var c c03Case
	c.Roots = []B{"/bulk", "/many"}
	for n := intn(t, 0, 4, "nbulk"); n > 0; n-- {
		b := bulkFile{Size: intn(t, 0, 1000, "size"), Letters: intn(t, 1, 26, "letters"), Seed: uint64(intn(t, 0, 1<<30, "seed"))}
		switch intn(t, 0, 5, "bulkkind") {
		case 1:
			b.NameLen = intn(t, 1000, 300000, "namelen")
		case 2:
			b.NameLen = 256<<10 + intn(t, -40, 40, "nearbuf")
		case 3:
			b.Size = 1<<20 + intn(t, -3, 3, "near1M")
		case 4:
			b.Size = intn(t, 1<<20, 5<<19, "large")
		}
		c.Bulk = append(c.Bulk, b)
	}
	if chance(t, 60, "many") {
		c.Many = intn(t, 1, 4000, "nmany")
	}
	if chance(t, 60, "spill") {
		c.Spill = intn(t, 1, 20000, "spillat")
	}
	for n := intn(t, 0, 3, "nranges"); n > 0; n-- {
		lo := intn(t, 0, 4000, "lo")
		c.Ranges = append(c.Ranges, [2]int{lo, lo + intn(t, 0, 400, "len")})
	}
	return c
}

// dedupe drops files whose names were used before or are unusable.
func dedupe(files []mfile) []mfile {
	seen := map[string]bool{}
	var out []mfile
	for _, f := range files {
		k := pathKey(string(f.Name))
		if !seen[k] && f.Name != "" {
			seen[k] = true
			out = append(out, f)
		}
	}
	return out
}

func checkC03(e *Env, c c03Case) Result {
	var files []mfile
	entries := 0
	for _, f := range dedupe(c.files()) {
		if textVerdict(string(f.Text)) == textYes {
			files = append(files, f)
			entries += len(trigramSet(string(f.Text)))
		}
	}
	roots := c.roots()
	x := modelIndex(roots, files)
	file := filepath.Join(e.Dir, "ix")
	old := 0
	if c.Spill > 0 {
		old = setSpillLimit(c.Spill)
		defer setSpillLimit(old)
	} else {
		old = setSpillLimit(1 << 16)
		setSpillLimit(old)
	}
	before := len(tempLeft())
	if err := buildIndex(file, roots, files); err != nil {
		return fail("%v", err)
	}
	if n := len(tempLeft()); n != before {
		return fail("the index writer left %d temporary files", n-before)
	}
	var r Result
	r.Nontrivial = len(files) >= 2 && len(x.Post) >= 2
	if c.Spill > 0 && entries > c.Spill {
		r.label("spills:%s", bucket(entries/c.Spill))
	}
	r.label("files:%s", bucket(len(files)))
	ix := index.Open(file)
	if d := diffIndex(ix, x, neighbours(x, 3000)); d != "" {
		return fail("%s", d)
	}
	for _, rg := range c.Ranges {
		lo, hi := min(rg[0], len(x.Names)), min(rg[1], len(x.Names))
		var got []string
		for p := range ix.Names(lo, hi) {
			got = append(got, p.String())
		}
		if !eqStrings(got, x.Names[lo:hi]) {
			return fail("Names(%d, %d) = %s, want %s", lo, hi, clipList(got), clipList(x.Names[lo:hi]))
		}
		got = got[:0]
		rd := ix.NamesAt(lo, hi)
		for rd.Valid() && len(got) <= hi-lo {
			got = append(got, rd.Path().String())
			rd.Next()
		}
		if lo < hi && !eqStrings(got[:min(len(got), hi-lo)], x.Names[lo:hi]) {
			return fail("NamesAt(%d, %d) lists %s, want %s", lo, hi, clipList(got), clipList(x.Names[lo:hi]))
		}
	}
	return r
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 4:
		return "2-3"
	case n < 17:
		return "4-16"
	case n < 65:
		return "17-64"
	case n < 257:
		return "65-256"
	}
	return ">256"
}

// C04

const (
	textNo      = iota // certainly not text
	textYes            // certainly text
	textUnclear        // the documentation leaves it open
)

// textVerdict is the documented text rule.
func textVerdict(s string) int {
	v := textYes
	if strings.IndexByte(s, 0) >= 0 {
		return textNo
	}
	class := func(c byte) int {
		switch {
		case c < 0x80:
			return 0 // alone
		case c < 0xc0:
			return 1 // continuation
		case c < 0xf8:
			return 2 // first of several
		}
		return 3
	}
	prev := byte(' ')
	for i := 0; i < len(s); i++ {
		c := s[i]
		pc, cc := class(prev), class(c)
		if cc == 3 || pc == 0 && cc == 1 || pc == 2 && cc != 1 {
			return textNo
		}
		// Pairs that only a stricter reading rules out.
		if c == 0xc0 || c == 0xc1 || c >= 0xf5 ||
			prev == 0xe0 && c < 0xa0 || prev == 0xed && c >= 0xa0 || prev == 0xf0 && c < 0x90 || prev == 0xf4 && c >= 0x90 {
			v = textUnclear
		}
		prev = c
	}
	for rest := s; rest != ""; {
		line, r, nl := strings.Cut(rest, "\n")
		rest = r
		if len(line) > 2000 {
			return textNo
		}
		if len(line) == 2000 && nl {
			v = textUnclear
		}
	}
	if len(s) > 20000 && len(trigramSet(s)) > 20000 {
		return textNo
	}
	return v
}

type c04Case struct {
	Name     B
	Parts    []c04Part
	Chunks   []int // sizes of successive reads, cycled; empty: all at once
	EOFWith  bool  // last read returns data together with io.EOF
	ErrAt    int   // fail reading at this offset; -1: never
	Neighbor [2]B  // contents of a file before and after
}

// A c04Part is a piece of content: a literal or a generated block.
type c04Part struct {
	Lit   B   `json:",omitempty"`
	Line  int `json:",omitempty"` // this many bytes without newline
	Tri   int `json:",omitempty"` // lines with about this many distinct trigrams
	Times int `json:",omitempty"`
}

func (p c04Part) expand() string {
	s := string(p.Lit)
	if p.Line > 0 {
		s += strings.Repeat("l", p.Line)
	}
	if p.Tri > 0 {
		s += manyTrigrams(p.Tri)
	}
	if p.Times > 1 {
		s = strings.Repeat(s, p.Times)
	}
	return s
}

// manyTrigrams returns text with exactly n distinct trigrams: an ever new
// path through pairs of letters, in lines that start and end alike.
func manyTrigrams(n int) string {
	// A de Bruijn-like walk over 30 letters gives 27000 distinct trigrams
	// without any line breaks; break lines by reusing known trigrams.
	const letters = "abcdefghijklmnopqrstuvwxyzABCD"
	seen := make(map[string]bool, n)
	var b []byte
	linelen := 0
	put := func(c byte) bool {
		b = append(b, c)
		linelen++
		if l := len(b); l >= 3 {
			seen[string(b[l-3:])] = true
		}
		return len(seen) >= n
	}
	for i := 0; i < len(letters); i++ {
		for j := i; j < len(letters); j++ {
			for k := i; k < len(letters); k++ {
				if put(letters[i]) || put(letters[j]) || put(letters[k]) {
					return string(b)
				}
				if linelen > 1000 {
					linelen = 0
					if put('\n') {
						return string(b)
					}
				}
			}
		}
	}
	return string(b)
}

func genC04(t *rapid.T) c04Case {
	var c c04Case
	c.Name = "/r/m"
	if chance(t, 12, "oddname") {
		c.Name = B(pick(t, []string{"", "/r/m\x01", "/r/m\nx", "/r/\x1f/m", "/r/m\x7f", "/r/m\xff", "/r/m é", "\x00", "/r/m\t", "/r/m\r", "/r/m\x00", "/r/m/ "}, "name"))
	}
	odd := []string{"\x00", "a\x80", "\xc3a", "é", "日本", "\xff", "\xfe", "\xf8", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xf0\x9f\x98\x80", "\x80", "é\x80", "a\xc3", "\xc3\xc3", "\x80\x80", "\xf7\xbf\xbf\xbf", "\x01", "\x7f", "\r\n", "\x1b[0m"}
	breaks := []string{"\r", "\r\n", "\n\r", "\v", "\f", "\u2028", "\u0085", "\t", " ", "\x1e", "\x1a", "\x04"}
	for n := intn(t, 0, 4, "nparts"); n > 0; n-- {
		var p c04Part
		switch intn(t, 0, 9, "part") {
		default:
			p.Lit = B(genContent(t, 6))
		case 4, 5:
			p.Lit = B(pick(t, odd, "odd"))
		case 6:
			p.Line = 2000 + intn(t, -3, 3, "dline")
			if chance(t, 50, "nl") {
				p.Lit = "\n"
			} else if chance(t, 50, "sep") {
				// Bytes that look like ends of lines and are not.
				p.Lit = B(pick(t, breaks, "sep"))
			}
		case 7:
			p.Line = intn(t, 1, 2500, "line")
			if chance(t, 60, "sep") {
				p.Lit = B(pick(t, breaks, "sep"))
			}
		case 8:
			if chance(t, 30, "tri") {
				p.Tri = 20000 + intn(t, -4, 4, "dtri")
			} else {
				p.Lit = "\n"
			}
		case 9:
			// Cross the 1 MB input buffer now and then.
			p.Lit = B("0123456789abcde\n")
			p.Times = intn(t, 1, 80, "times")
			if chance(t, 10, "huge") {
				p.Times = 1<<16 + intn(t, -1, 1, "dtimes")
			}
		}
		c.Parts = append(c.Parts, p)
	}
	for n := intn(t, 0, 3, "nchunks"); n > 0; n-- {
		c.Chunks = append(c.Chunks, pick(t, []int{1, 2, 3, 5, 100, 4096, 65536, 1 << 20}, "chunk"))
	}
	c.EOFWith = chance(t, 30, "eofwith")
	c.ErrAt = -1
	if chance(t, 15, "err") {
		c.ErrAt = intn(t, 0, 40, "errat")
	}
	c.Neighbor = [2]B{B(genContent(t, 4)), B(genContent(t, 4))}
	return c
}

var errInjected = errors.New("injected read error")

// A chunkReader delivers data in given portions.
type chunkReader struct {
	data    string
	chunks  []int
	i       int
	eofWith bool
	errAt   int
	off     int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.errAt >= 0 && r.off >= r.errAt {
		return 0, errInjected
	}
	if r.off >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = min(n, r.chunks[r.i%len(r.chunks)])
		r.i++
	}
	if r.errAt >= 0 {
		n = min(n, r.errAt-r.off)
	}
	n = copy(p[:n], r.data[r.off:])
	r.off += n
	if r.eofWith && r.off == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func validName(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' {
			return false
		}
	}
	return s != ""
}

func checkC04(e *Env, c c04Case) Result {
	var b strings.Builder
	for _, p := range c.Parts {
		b.WriteString(p.expand())
	}
	text := b.String()
	if len(text) > 8<<20 {
		return Result{Invalid: true}
	}
	errAt := c.ErrAt
	if errAt > len(text) {
		errAt = len(text)
	}
	wantErr := !validName(string(c.Name))
	seen := text
	verdict := textVerdict(text)
	if errAt >= 0 {
		seen = text[:errAt]
		// A file is either rejected for what was read, or unreadable.
		if textVerdict(seen) == textYes {
			wantErr = true
		}
		verdict = textNo
	}
	if !validName(string(c.Name)) {
		verdict = textNo
	}
	file := filepath.Join(e.Dir, "ix")
	ix := index.Create(file)
	ix.AddRoots(paths([]string{"/r"}))
	nb := []mfile{{"/r/a", c.Neighbor[0]}, {"/r/z", c.Neighbor[1]}}
	for i := range nb {
		if textVerdict(string(nb[i].Text)) != textYes {
			nb[i].Text = "abc"
		}
	}
	if err := ix.Add("/r/a", strings.NewReader(string(nb[0].Text))); err != nil {
		return fail("Add of %q: %v", nb[0].Text, err)
	}
	chunks := c.Chunks
	if len(text) > 1<<16 {
		chunks = nil
		for _, n := range c.Chunks {
			if n > 50 {
				chunks = append(chunks, n)
			}
		}
	}
	err := ix.Add(string(c.Name), &chunkReader{data: text, chunks: chunks, eofWith: c.EOFWith, errAt: errAt})
	if wantErr && err == nil {
		return fail("Add(%q, %q, read error at %d) returned no error", c.Name, clip(text), errAt)
	}
	if !wantErr && err != nil && errAt < 0 {
		return fail("Add(%q, %q): %v", c.Name, clip(text), err)
	}
	if err := ix.Add("/r/z", strings.NewReader(string(nb[1].Text))); err != nil {
		return fail("Add of %q: %v", nb[1].Text, err)
	}
	ix.Flush()
	with := modelIndex([]string{"/r"}, append([]mfile{{c.Name, B(text)}}, nb...))
	without := modelIndex([]string{"/r"}, nb)
	rd := index.Open(file)
	var absent []uint32
	for t := range with.Post {
		absent = append(absent, t)
	}
	dw := diffIndex(rd, with, nil)
	dwo := diffIndex(rd, without, absent)
	var r Result
	r.Nontrivial = len(text) > 0
	switch verdict {
	case textYes:
		r.label("text")
		if dw != "" {
			return fail("text file %q: %s", clip(text), dw)
		}
	case textNo:
		r.label("not text")
		if wantErr {
			r.label("error")
		}
		if dwo != "" {
			return fail("file %q (name %q, %d bytes, %d trigrams) should be left out: %s", clip(text), c.Name, len(text), len(trigramSet(text)), dwo)
		}
	default:
		r.label("unclear")
		if dw != "" && dwo != "" {
			return fail("file %q is neither indexed nor left out: %s; %s", clip(text), dw, dwo)
		}
	}
	return r
}

// The huge suite: files around the length limit of 1 GB, streamed.
type c04Huge struct {
	Size int
	Tail B // the last bytes
}

// A repeatReader delivers line again and again, size bytes in all, ending in tail.
type repeatReader struct {
	line, tail string
	size, off  int
}

func (r *repeatReader) Read(p []byte) (int, error) {
	if r.off >= r.size {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && r.off < r.size {
		s := ""
		if body := r.size - len(r.tail); r.off < body {
			k := r.off % len(r.line)
			s = r.line[k:min(len(r.line), k+body-r.off)]
		} else {
			s = r.tail[r.off-body:]
		}
		k := copy(p[n:], s)
		n += k
		r.off += k
	}
	return n, nil
}

func checkC04Huge(e *Env, c c04Huge) Result {
	line := strings.Repeat("0123456789abcde ", 60) + "\n"
	if c.Size < len(line)*2+len(c.Tail) || c.Size > 1<<31 {
		return Result{Invalid: true}
	}
	file := filepath.Join(e.Dir, "ix")
	ix := index.Create(file)
	ix.AddRoots(paths([]string{"/r"}))
	must(ix.Add("/r/a", strings.NewReader("hello abc")))
	if err := ix.Add("/r/m", &repeatReader{line: line, tail: string(c.Tail), size: c.Size}); err != nil {
		return fail("Add of a text of %d bytes ending in %q: %v", c.Size, c.Tail, err)
	}
	must(ix.Add("/r/z", strings.NewReader("bca")))
	ix.Flush()
	files := []mfile{{"/r/a", "hello abc"}, {"/r/z", "bca"}}
	small := line + line
	// Where the last line is cut decides which trigrams surround the tail.
	rest := (c.Size - len(c.Tail)) % len(line)
	small += line[:rest] + string(c.Tail)
	indexed := c.Size <= 1<<30 && textVerdict(small) == textYes
	if indexed {
		files = append(files, mfile{"/r/m", B(small)})
	}
	x := modelIndex([]string{"/r"}, files)
	var absent []uint32
	for s := range trigramSet(small) {
		absent = append(absent, tri(s))
	}
	if d := diffIndex(index.Open(file), x, absent); d != "" {
		return fail("text of %d bytes ending in %q (to be indexed: %v): %s", c.Size, c.Tail, indexed, d)
	}
	return Result{Nontrivial: true}
}

// The addfile suite: files on disk.
type c04FileCase struct {
	Kinds []string
	Texts []B
}

func genC04File(t *rapid.T) c04FileCase {
	var c c04FileCase
	for n := intn(t, 1, 6, "n"); n > 0; n-- {
		c.Kinds = append(c.Kinds, pick(t, []string{"file", "file", "missing", "dir", "binary", "symlink", "dangling"}, "kind"))
		c.Texts = append(c.Texts, B(genContent(t, 6)))
	}
	return c
}

func checkC04File(e *Env, c c04FileCase) Result {
	file := filepath.Join(e.Dir, "ix")
	root := filepath.Join(e.Dir, "r")
	must(os.Mkdir(root, 0777))
	ix := index.Create(file)
	ix.AddRoots(paths([]string{root}))
	var want []mfile
	var r Result
	for i, k := range c.Kinds {
		name := fmt.Sprintf("%s/f%d", root, i)
		text := string(c.Texts[i])
		if textVerdict(text) != textYes {
			text = "plain"
		}
		wantErr := false
		switch k {
		case "file":
			writeFile(name, text)
		case "missing":
			wantErr = true
		case "dir":
			must(os.Mkdir(name, 0777))
			wantErr = true
		case "binary":
			writeFile(name, text+"\x00x")
		case "symlink":
			writeFile(e.Dir+"/target", text)
			must(os.Symlink(e.Dir+"/target", name))
		case "dangling":
			must(os.Symlink(e.Dir+"/nowhere", name))
			wantErr = true
		}
		if k == "symlink" {
			defer os.Remove(e.Dir + "/target")
		}
		err := ix.AddFile(name)
		if (err != nil) != wantErr {
			return fail("AddFile of a %s: error %v", k, err)
		}
		if k == "file" || k == "symlink" {
			want = append(want, mfile{B(name), B(text)})
		}
		r.label("kind:%s", k)
	}
	ix.Flush()
	r.Nontrivial = len(want) != len(c.Kinds)
	x := modelIndex([]string{root}, want)
	if d := diffIndex(index.Open(file), x, neighbours(x, 300)); d != "" {
		return fail("%s", d)
	}
	return r
}

// C02

type c02Query struct {
	Op  int // as index.QueryOp
	Tri []B
	Sub []c02Query `json:",omitempty"`
}

func (q c02Query) real() *index.Query {
	r := &index.Query{Op: index.QueryOp(q.Op)}
	for _, t := range q.Tri {
		r.Trigram = append(r.Trigram, string(t))
	}
	for _, s := range q.Sub {
		r.Sub = append(r.Sub, s.real())
	}
	return r
}

func genC02Query(t *rapid.T, depth int, tris []string) c02Query {
	k := intn(t, 0, 9, "op")
	if depth <= 0 && k < 2 {
		k = 2
	}
	var q c02Query
	switch {
	case k == 8 && depth < 3:
		q.Op = int(index.QAll)
		return q
	case k == 9 && depth < 3:
		q.Op = int(index.QNone)
		return q
	case k%2 == 0:
		q.Op = int(index.QAnd)
	default:
		q.Op = int(index.QOr)
	}
	for n := intn(t, 0, 4, "ntri"); n > 0; n-- {
		q.Tri = append(q.Tri, B(pick(t, tris, "tri")))
	}
	if depth > 0 {
		for n := intn(t, 0, 3, "nsub"); n > 0; n-- {
			q.Sub = append(q.Sub, genC02Query(t, depth-1, tris))
		}
	}
	if len(q.Tri)+len(q.Sub) == 0 {
		q.Tri = append(q.Tri, B(pick(t, tris, "tri")))
	}
	return q
}

type c02Case struct {
	Files   []mfile
	Queries []c02Query
	Lists   []c02List
}

type c02List struct {
	Ids []int
	Tri B
}

func genC02(t *rapid.T) c02Case {
	var c c02Case
	n := intn(t, 0, 60, "nfiles")
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, mfile{B(fmt.Sprintf("/r/%03d", i)), B(genABC(t))})
	}
	tris := []string{"abc", "aaa", "bca", "cab", "bbb", "aab", "abb", "ccc", "zzz", "\xff\xff\xff", "\x00\x00\x01", "aba", "bab", "cba"}
	for n := intn(t, 1, 6, "nq"); n > 0; n-- {
		c.Queries = append(c.Queries, genC02Query(t, 3, tris))
	}
	for k := intn(t, 0, 4, "nl"); k > 0; k-- {
		var l c02List
		l.Tri = B(pick(t, tris, "ltri"))
		for i := 0; i < n+2; i++ {
			if chance(t, 40, "inlist") {
				l.Ids = append(l.Ids, i)
			}
		}
		c.Lists = append(c.Lists, l)
	}
	return c
}

// c02Wide makes queries of many trigrams or operands over more files.
type c02Wide struct {
	Seed    int64
	Letters int // so many different letters
	Files   int
	Len     int      // of each
	Queries [][4]int // operator, number of trigrams, number of operands, depth
}

func genC02Wide(t *rapid.T) c02Wide {
	c := c02Wide{Seed: rapid.Int64().Draw(t, "seed"), Letters: intn(t, 2, 8, "letters"), Len: intn(t, 0, 60, "len")}
	n := 1 << intn(t, 2, 9, "fileslog")
	c.Files = n + intn(t, -1, n, "filesoff")
	for n := intn(t, 1, 4, "nq"); n > 0; n-- {
		k := 1 << intn(t, 0, 9, "trislog")
		s := 1 << intn(t, 0, 7, "subslog")
		c.Queries = append(c.Queries, [4]int{intn(t, 0, 1, "op"), k + intn(t, 0, k, "trisoff"), intn(t, 0, s, "subsoff"), intn(t, 0, 3, "depth")})
	}
	return c
}

func (c c02Wide) expand() c02Case {
	seed := uint64(c.Seed)
	next := func(n int) int {
		seed = splitmix(seed)
		return int(seed>>1) % max(n, 1)
	}
	var w c02Case
	letter := func() byte { return byte('a' + next(max(1, min(c.Letters, 26)))) }
	for i := 0; i < c.Files; i++ {
		b := make([]byte, next(c.Len+1))
		for j := range b {
			b[j] = letter()
		}
		w.Files = append(w.Files, mfile{B(fmt.Sprintf("/r/%06d", i)), B(b)})
	}
	// Nested operands are small, and ANDs of many trigrams select nothing:
	// operators alternate.
	var query func(op, tris, subs, depth int) c02Query
	query = func(op, tris, subs, depth int) c02Query {
		q := c02Query{Op: int(index.QAnd)}
		if op == 1 {
			q.Op = int(index.QOr)
		} else {
			tris = 1 + tris%3
		}
		for i := 0; i < tris; i++ {
			q.Tri = append(q.Tri, B([]byte{letter(), letter(), letter()}))
		}
		if depth > 0 {
			for i := 0; i < subs; i++ {
				n := 1 + next(8)
				if next(10) == 0 {
					n = 1 + next(100)
				}
				q.Sub = append(q.Sub, query(1-op, n, next(4), depth-1))
			}
		}
		return q
	}
	for _, x := range c.Queries {
		w.Queries = append(w.Queries, query(x[0]&1, x[1], x[2], x[3]))
	}
	return w
}

func checkC02Wide(e *Env, c c02Wide) Result {
	if c.Letters < 1 || c.Files < 0 || c.Files > 1<<12 || c.Len < 0 || c.Len > 1000 {
		return Result{Invalid: true}
	}
	return checkC02(e, c.expand())
}

func genABC(t *rapid.T) string {
	n := intn(t, 0, 9, "len")
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc"[intn(t, 0, 2, "ch")]
	}
	return string(b)
}

func checkC02(e *Env, c c02Case) Result {
	file := filepath.Join(e.Dir, "ix")
	if err := buildIndex(file, []string{"/r"}, c.Files); err != nil {
		return fail("%v", err)
	}
	return queryIndex(e, file, c)
}

// queryIndex evaluates the queries of c on an index of its files.
func queryIndex(e *Env, file string, c c02Case) Result {
	ix := index.Open(file)
	var sets []map[string]bool
	for _, f := range c.Files {
		sets = append(sets, trigramSet(string(f.Text)))
	}
	var r Result
	type past struct {
		what string
		got  []int
		want []int
	}
	var results []past
	eval := func(q c02Query) string {
		rq := q.real()
		var want []int
		for id := range sets {
			if evalQuery(rq, sets[id]) {
				want = append(want, id)
			}
		}
		got := ix.PostingQuery(rq)
		if !eqInts(got, want) {
			return fmt.Sprintf("PostingQuery(%v) = %s, want %s", rq, clipInts(got), clipInts(want))
		}
		results = append(results, past{fmt.Sprint(rq), got, want})
		if len(want) > 0 && len(want) < len(sets) && len(q.Tri)+len(q.Sub) > 1 {
			r.Nontrivial = true
		}
		return ""
	}
	for round := 0; round < 2; round++ {
		for _, q := range c.Queries {
			if d := eval(q); d != "" {
				return fail("%s", d)
			}
		}
		for _, l := range c.Lists {
			if len(l.Tri) != 3 {
				continue
			}
			in := map[int]bool{}
			for id := range sets {
				if sets[id][string(l.Tri)] {
					in[id] = true
				}
			}
			var and, or []int
			i := 0
			for id := 0; id < len(sets)+5; id++ {
				inl := i < len(l.Ids) && l.Ids[i] == id
				if inl {
					i++
				}
				if inl && in[id] {
					and = append(and, id)
				}
				if inl || in[id] {
					or = append(or, id)
				}
			}
			if i != len(l.Ids) {
				return Result{Invalid: true}
			}
			t := tri(string(l.Tri))
			if got := ix.PostingOr(append([]int(nil), l.Ids...), t); !eqInts(got, or) {
				return fail("PostingOr(%v, %q) = %v, want %v", l.Ids, l.Tri, got, or)
			}
			if got := ix.PostingAnd(append([]int(nil), l.Ids...), t); !eqInts(got, and) {
				return fail("PostingAnd(%v, %q) = %v, want %v", l.Ids, l.Tri, got, and)
			}
			if len(and) > 0 && len(and) < len(l.Ids) {
				r.Nontrivial = true
				r.label("list:proper intersection")
			}
		}
	}
	// Results handed out earlier have not been changed by later evaluations.
	for _, p := range results {
		if !eqInts(p.got, p.want) {
			return fail("the result of PostingQuery(%s) changed to %v after later queries, was %v", p.what, p.got, p.want)
		}
	}
	return r
}

// C05

type c05Case struct {
	Pre   int `json:",omitempty"` // length of a common prefix of all paths
	Paths []B
}

func genC05(t *rapid.T) c05Case {
	c := c05Case{Pre: genDeep(t, 100000)}
	toks := []string{"a", "b", "/", "/", ".", "-", "!", "\x01", "\x02", "0", "~", "é", "\xff", "ab", "a/", "\\"}
	for n := intn(t, 2, 8, "npaths"); n > 0; n-- {
		if len(c.Paths) > 0 && chance(t, 50, "derive") {
			p := string(pick(t, c.Paths, "base"))
			switch intn(t, 0, 2, "how") {
			case 0:
				p += pick(t, toks, "tok")
			case 1:
				p = p[:intn(t, 0, len(p), "cut")]
			case 2:
				i := intn(t, 0, len(p), "at")
				p = p[:i] + pick(t, toks, "tok") + p[i:]
			}
			c.Paths = append(c.Paths, B(p))
			continue
		}
		var b strings.Builder
		if chance(t, 70, "abs") {
			b.WriteString("/")
		}
		for m := intn(t, 0, 6, "ntok"); m > 0; m-- {
			b.WriteString(pick(t, toks, "tok"))
		}
		c.Paths = append(c.Paths, B(b.String()))
	}
	return c
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func checkC05(e *Env, c c05Case) Result {
	var r Result
	pre := longPrefix(c.Pre)
	for _, p := range c.Paths {
		for _, q := range c.Paths {
			a, b := pre+string(p), pre+string(q)
			got := sign(index.MakePath(a).Compare(index.MakePath(b)))
			want := strings.Compare(pathKey(a), pathKey(b))
			if got != want {
				return fail("Compare(%q, %q) has sign %d, want %d", a, b, got, want)
			}
			if a != "" && b != "" {
				// b is a path prefix of a.
				wantP := a == b || strings.HasPrefix(a, strings.TrimSuffix(b, "/")+"/") && strings.HasPrefix(a, b)
				if gotP := index.MakePath(a).HasPathPrefix(index.MakePath(b)); gotP != wantP {
					return fail("HasPathPrefix(%q, %q) = %v, want %v", a, b, gotP, wantP)
				}
				if a != b && (wantP || strings.HasPrefix(a, b)) {
					r.Nontrivial = true
				}
				if wantP && a != b {
					r.label("prefix")
				} else if a != b && strings.HasPrefix(a, b) {
					r.label("near prefix")
				}
			}
		}
	}
	return r
}

// The walk suite: a real directory tree is walked in path order, and a
// directory's subtree is contiguous.
type c05Walk struct {
	Files []B
}

func genC05Walk(t *rapid.T) c05Walk {
	var c c05Walk
	var prev []string
	for n := intn(t, 1, 14, "n"); n > 0; n-- {
		p := genPathUnder(t, "/", prev)
		prev = append(prev, p)
		c.Files = append(c.Files, B(p))
	}
	return c
}

func checkC05Walk(e *Env, c c05Walk) Result {
	root := filepath.Join(e.Dir, "r")
	must(os.Mkdir(root, 0777))
	for _, f := range c.Files {
		p := root + string(f)
		if filepath.Clean(p) != p || !strings.HasPrefix(p, root+"/") {
			continue
		}
		if os.MkdirAll(filepath.Dir(p), 0777) == nil {
			if fi, err := os.Lstat(p); err != nil || !fi.IsDir() {
				os.WriteFile(p, nil, 0666)
			}
		}
	}
	var walk []string
	must(filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		must(err)
		walk = append(walk, p)
		return nil
	}))
	sorted := append([]string(nil), walk...)
	// Start from some other order.
	for i, j := 0, len(sorted)-1; i < j; i, j = i+1, j-1 {
		sorted[i], sorted[j] = sorted[j], sorted[i]
	}
	sort.SliceStable(sorted, func(i, j int) bool {
		return index.MakePath(sorted[i]).Compare(index.MakePath(sorted[j])) < 0
	})
	var r Result
	r.Nontrivial = len(walk) > 3
	if !eqStrings(sorted, walk) {
		return fail("sorting by Path.Compare gives %q, the tree walk is %q", sorted, walk)
	}
	return r
}

// C25 lives in p_sparse.go; shared helpers end here.

func readAll(file string) []byte {
	b, err := os.ReadFile(file)
	must(err)
	return b
}

// catch runs f and returns what it panicked with.
func catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(infraError); ok {
				panic(e)
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

var _ = bytes.Equal

func init() {
	rules["C02"] = "indexes of up to 60 small files over {a,b,c}, query trees of depth up to 4 with ALL/NONE anywhere, sorted id lists; also up to 1000 files and nodes of hundreds of trigrams and operands; non-trivial: a compound query selects a proper non-empty subset, or a proper non-empty intersection"
	assumptions["C02"] = []string{"an AND without operands does not occur (the code never builds one)"}
	reg("C02", "algebra", opts{quick: 12000, thorough: 600000, recycle: 300, gcOff: true}, genC02, checkC02)
	reg("C02", "wide", opts{quick: 1500, thorough: 60000, recycle: 150}, genC02Wide, checkC02Wide,
		c02Wide{Seed: 1, Letters: 7, Files: 1000, Len: 20, Queries: [][4]int{{1, 300, 0, 0}, {1, 40, 200, 2}, {0, 2, 200, 3}}})

	rules["C03"] = "file sets with related names (shared prefixes, siblings extending directories, long names, common prefixes of up to 100000 bytes), contents, roots and spill limits; about 70000 files or 70000 roots at once; non-trivial: at least two files and two trigrams"
	assumptions["C03"] = []string{"file names are added in path order, as cindex does", "the spill limit is set through the verif hook"}
	reg("C03", "small", opts{quick: 16000, thorough: 500000, recycle: 300, gcOff: true}, genC03, checkC03)
	reg("C03", "big", opts{quick: 600, thorough: 12000, recycle: 30}, genC03Big, checkC03)
	var real c03Case
	real.Roots = []B{"/bulk"}
	for i := 0; i < 520; i++ {
		real.Bulk = append(real.Bulk, bulkFile{Size: 57000, Letters: 26, Seed: uint64(i)})
	}
	reg("C03", "realspill", opts{recycle: 1}, nil, checkC03, real)

	rules["C04"] = "contents assembled from text, bytes and pairs around the UTF-8 rules, lines around 2000 bytes, trigram counts around 20000, control characters that look like line ends, delivered in reads of varying sizes with errors, under ordinary and malformed names; non-trivial: non-empty content, or a set of files of which some are rejected"
	assumptions["C04"] = []string{"left open: a line of exactly 2000 bytes followed by a newline; byte pairs ruled out only by the finer UTF-8 rules (overlong forms, surrogates, beyond U+10FFFF)"}
	reg("C04", "add", opts{quick: 9000, thorough: 400000, recycle: 300, gcOff: true}, genC04, checkC04)
	reg("C04", "huge", opts{recycle: 1, cpuLimit: 300}, nil, checkC04Huge,
		c04Huge{Size: 1 << 30}, c04Huge{Size: 1 << 30, Tail: "\x00"}, c04Huge{Size: 1<<30 + 1}, c04Huge{Size: 1<<30 - 1, Tail: "zyx"}, c04Huge{Size: 1<<30 + 1, Tail: "zyx"}, c04Huge{Size: 3 << 29})
	reg("C04", "addfile", opts{quick: 2000, thorough: 60000, recycle: 300, gcOff: true}, genC04File, checkC04File)

	rules["C05"] = "groups of paths derived from one another by inserting, appending and cutting; common prefixes of up to 100000 bytes; real directory trees; non-trivial: one path is a proper string prefix of another, or a tree with more than three entries"
	reg("C05", "order", opts{noDir: true, quick: 160000, thorough: 8000000, recycle: 100000}, genC05, checkC05)
	reg("C05", "walk", opts{quick: 6000, thorough: 300000, recycle: 3000}, genC05Walk, checkC05Walk)
}
