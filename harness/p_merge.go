package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
	"pgregory.net/rapid"
)

// C06: merging against a model on plain file sets.  C09 drives the same
// operations through old-format indexes.

type mergeSrc struct {
	Roots []B
	Files []mfile
	Many  int  // further small files
	NRoot int  `json:",omitempty"` // further roots
	Step  int  `json:",omitempty"` // of their numbers
	Pre   int  `json:",omitempty"` // length of a common prefix of all paths
	V1    bool `json:",omitempty"`
}

// An mstate is the meaning of an index.
type mstate struct {
	roots []string
	files map[string]string
}

func (m *mstate) index() *xindex {
	var l []mfile
	for n, t := range m.files {
		l = append(l, mfile{B(n), B(t)})
	}
	return modelIndex(m.roots, l)
}

func (s *mergeSrc) state() *mstate {
	m := &mstate{files: map[string]string{}}
	for _, r := range s.Roots {
		m.roots = append(m.roots, under(s.Pre, string(r)))
	}
	for i := 0; i < s.NRoot; i++ {
		m.roots = append(m.roots, under(s.Pre, fmt.Sprintf("/r/%06d", i*max(1, s.Step))))
	}
	roots := newRootSet(m.roots)
	seen := map[string]bool{}
	add := func(name, text string) {
		if k := pathKey(name); !seen[k] && name != "" && textVerdict(text) == textYes {
			if roots.holds(name) {
				seen[k] = true
				m.files[name] = text
			}
		}
	}
	for _, f := range s.Files {
		if f.Name != "" {
			add(under(s.Pre, string(f.Name)), string(f.Text))
		}
	}
	if len(m.roots) > 0 {
		for i := 0; i < s.Many; i++ {
			r := m.roots[i%len(m.roots)]
			if r == "/" {
				r = ""
			}
			add(fmt.Sprintf("%s/m%04d", r, i*7), fmt.Sprintf("mass t%d u%d", i%5, i))
		}
	}
	return m
}

// mergeStates is what merging means.
func mergeStates(a, b *mstate) *mstate {
	m := &mstate{files: map[string]string{}}
	newer := newRootSet(b.roots)
	for n, t := range a.files {
		if !newer.holds(n) {
			m.files[n] = t
		}
	}
	for n, t := range b.files {
		m.files[n] = t
	}
	all := append(append([]string(nil), a.roots...), b.roots...)
	set := newRootSet(all)
	seen := map[string]bool{}
	for _, r := range all {
		if !seen[r] && !set.above(r) {
			m.roots = append(m.roots, r)
		}
		seen[r] = true
	}
	return m
}

// A rootSet answers questions about many roots.
type rootSet map[string]bool

func newRootSet(roots []string) rootSet {
	s := rootSet{}
	for _, r := range roots {
		s[r] = true
	}
	return s
}

// holds reports whether p is below one of the roots.
func (s rootSet) holds(p string) bool {
	if s[p] || s["/"] && below(p, "/") {
		return true
	}
	for i := 0; i < len(p); i++ {
		if (p[i] == '/' || p[i] == 1) && s[p[:i]] && below(p, p[:i]) {
			return true
		}
	}
	return false
}

// above reports whether r is under another of the roots.
func (s rootSet) above(r string) bool {
	for i := 0; i < len(r); i++ {
		if r[i] != '/' {
			continue
		}
		for _, o := range []string{r[:i], r[:i+1]} {
			if o != r && s[o] && underRoot(r, o) {
				return true
			}
		}
	}
	return false
}

// makeSource writes an index of st: with the real writer, or, if there are zip
// members (which it would only take from archives), by the documentation.
func makeSource(file string, st *mstate) error {
	var l []mfile
	for n, t := range st.files {
		if !validName(n) {
			return os.WriteFile(file, encodeV2(st.index(), true, nil), 0666)
		}
		l = append(l, mfile{B(n), B(t)})
	}
	return buildIndex(file, st.roots, l)
}

// underRoot reports whether path r lies below root o.
func underRoot(r, o string) bool {
	return strings.HasPrefix(r, strings.TrimSuffix(o, "/")+"/")
}

type mergeStep struct {
	A, B int // indexes into the pool; the result is appended
}

type c06Case struct {
	Srcs  []mergeSrc
	Steps []mergeStep
}

func genMergeSrc(t *rapid.T) mergeSrc {
	s := mergeSrc{Pre: genDeep(t, 18000)}
	lo := 1
	if chance(t, 7, "noroots") {
		lo = 0
	}
	roots := genRootSet(t, lo, 4)
	s.Roots = toB(roots)
	if len(roots) > 0 {
		n := 0
		if !chance(t, 10, "nofiles") {
			n = 2
		}
		s.Files = genFilesN(t, roots, n, 14, 5)
		if chance(t, 30, "zipmembers") {
			r := pick(t, roots, "ziproot")
			s.Files = append(s.Files, mfile{B(r + "\x01" + genElem(t)), B(genContent(t, 4))}, mfile{B(r + "/q.zip\x01m/" + genElem(t)), B(genContent(t, 4))})
		}
		// A file that is itself a root.
		if chance(t, 20, "rootfile") {
			s.Files = append(s.Files, mfile{B(pick(t, roots, "fileroot")), B(genContent(t, 4))})
		}
	}
	if chance(t, 25, "many") {
		s.Many = intn(t, 1, 60, "nmany")
	}
	return s
}

func genC06(t *rapid.T) c06Case {
	var c c06Case
	for n := intn(t, 2, 4, "nsrc"); n > 0; n-- {
		c.Srcs = append(c.Srcs, genMergeSrc(t))
	}
	if !chance(t, 3, "mixedpre") {
		for i := range c.Srcs {
			c.Srcs[i].Pre = c.Srcs[0].Pre
		}
	}
	pool := len(c.Srcs)
	for n := intn(t, 1, 4, "nsteps"); n > 0; n-- {
		a := intn(t, 0, pool-1, "a")
		b := a
		if !chance(t, 5, "self") {
			b = (a + intn(t, 1, pool-1, "b")) % pool
		}
		c.Steps = append(c.Steps, mergeStep{a, b})
		pool++
	}
	return c
}

func checkC06(e *Env, c c06Case) Result { return runMerges(e, c, false) }

func runMerges(e *Env, c c06Case, v1 bool) Result {
	var r Result
	var states []*mstate
	var files []string
	for i, s := range c.Srcs {
		st := s.state()
		file := filepath.Join(e.Dir, fmt.Sprintf("s%d", i))
		if s.V1 {
			writeFile(file, string(encodeV1(st.index())))
			r.label("source:v1")
		} else if err := makeSource(file, st); err != nil {
			return fail("source %d: %v", i, err)
		}
		states = append(states, st)
		files = append(files, file)
	}
	fixed := map[int][]byte{}
	for i, step := range c.Steps {
		if step.A >= len(states) || step.B >= len(states) {
			return Result{Invalid: true}
		}
		a, b := states[step.A], states[step.B]
		for _, k := range []int{step.A, step.B} {
			if fixed[k] == nil {
				fixed[k] = readAll(files[k])
			}
		}
		want := mergeStates(a, b)
		dst := filepath.Join(e.Dir, fmt.Sprintf("m%d", i))
		before := len(tempLeft())
		if msg := catch(func() { index.Merge(dst, files[step.A], files[step.B]) }); msg != "" {
			return fail("step %d: merging indexes of\n%s\nand (newer)\n%s\n%s", i, describe(a), describe(b), msg)
		}
		if n := len(tempLeft()); n != before {
			return fail("step %d: merging left %d temporary files", i, n-before)
		}
		for _, k := range []int{step.A, step.B} {
			if !bytes.Equal(fixed[k], readAll(files[k])) {
				return fail("step %d: merging changed its source", i)
			}
		}
		x := want.index()
		ix := index.Open(dst)
		absent := neighbours(x, 200)
		for _, m := range []*mstate{a, b} {
			for _, t := range m.files {
				for s := range trigramSet(t) {
					absent = append(absent, tri(s))
				}
			}
		}
		ctx := func() string {
			return fmt.Sprintf("step %d: merging\n%s\nwith newer\n%s\ngives: ", i, describe(a), describe(b))
		}
		if d := diffIndex(ix, x, absent); d != "" {
			return fail("%s%s", ctx(), d)
		}
		var cerr error
		if msg := catch(func() { cerr = ix.Check() }); msg != "" || cerr != nil {
			return fail("%san index that fails Check: %v %s", ctx(), cerr, msg)
		}
		dec, err := decodeV2(readAll(dst))
		if err != nil {
			return fail("%sa malformed index: %v", ctx(), err)
		}
		if d := diffX(dec, x); d != "" {
			return fail("%son disk: %s", ctx(), d)
		}
		replaced := 0
		for n := range a.files {
			if _, ok := want.files[n]; !ok || want.files[n] != a.files[n] {
				replaced++
			}
		}
		kept := len(a.files) - replaced
		if replaced > 0 && kept > 0 {
			r.Nontrivial = true
			r.label("replaced some, kept some")
		}
		if len(b.files) == 0 {
			r.label("newer has no files")
		}
		if len(want.roots) < len(a.roots)+len(b.roots) {
			r.label("roots overlap")
		}
		if step.A >= len(c.Srcs) || step.B >= len(c.Srcs) {
			r.label("merge of a merge")
		}
		states = append(states, want)
		files = append(files, dst)
	}
	return r
}

func describe(m *mstate) string {
	x := m.index()
	var b strings.Builder
	fmt.Fprintf(&b, "  roots %s files", clipList(x.Roots))
	for i, n := range x.Names {
		if i == 15 {
			fmt.Fprintf(&b, " ... (%d)", len(x.Names))
			break
		}
		fmt.Fprintf(&b, " %q:%q", n, clip(m.files[n]))
	}
	return b.String()
}

// C09

type c09Read struct {
	Src     mergeSrc
	Queries []c02Query
}

func genC09Read(t *rapid.T) c09Read {
	c := c09Read{Src: genMergeSrc(t)}
	tris := []string{"abc", "bca", "hel", "ell", "llo", "xyz", "zzz", "fun", "\xff\xff\xff", "\x00\x00\x01", "rld", "qqq"}
	for n := intn(t, 0, 4, "nq"); n > 0; n-- {
		c.Queries = append(c.Queries, genC02Query(t, 2, tris))
	}
	return c
}

func checkC09Read(e *Env, c c09Read) Result {
	st := c.Src.state()
	x := st.index()
	file := filepath.Join(e.Dir, "v1")
	writeFile(file, string(encodeV1(x)))
	ix := index.Open(file)
	if d := diffIndex(ix, x, neighbours(x, 500)); d != "" {
		return fail("reading a version 1 index of\n%s\n%s", describe(st), d)
	}
	var r Result
	r.Nontrivial = len(x.Names) > 1
	var sets []map[string]bool
	for _, n := range x.Names {
		sets = append(sets, trigramSet(st.files[n]))
	}
	for _, q := range c.Queries {
		rq := q.real()
		var want []int
		for id := range sets {
			if evalQuery(rq, sets[id]) {
				want = append(want, id)
			}
		}
		if got := ix.PostingQuery(rq); !eqInts(got, want) {
			return fail("version 1 index of\n%s\nPostingQuery(%v) = %v, want %v", describe(st), rq, got, want)
		}
	}
	for lo := 0; lo < len(x.Names); lo += 1 + len(x.Names)/5 {
		hi := min(len(x.Names), lo+3)
		var got []string
		for p := range ix.Names(lo, hi) {
			got = append(got, p.String())
		}
		if !eqStrings(got, x.Names[lo:hi]) {
			return fail("version 1: Names(%d, %d) = %q, want %q", lo, hi, got, x.Names[lo:hi])
		}
	}
	if msg := catch(func() {
		if err := ix.Check(); err != nil {
			panic(err)
		}
	}); msg != "" {
		return fail("Check of a version 1 index: %s", msg)
	}
	return r
}

// Version 1 files of up to 4 GB.

type c09Far struct {
	Src   mergeSrc
	Skip  [3]int
	Pads  []farPad
	Merge *mergeSrc `json:",omitempty"`
	Newer bool      // the far index is the newer one
}

type farPad struct{ At, N int }

func genC09Far(t *rapid.T) c09Far {
	c := c09Far{Src: genMergeSrc(t)}
	size := func() int { return 1<<intn(t, 0, 32, "holebits") - intn(t, 0, 20, "dhole") }
	for i := range c.Skip {
		if chance(t, 30, "skip") {
			c.Skip[i] = max(0, size())
		}
	}
	for n := intn(t, 0, 3, "npads"); n > 0; n-- {
		c.Pads = append(c.Pads, farPad{intn(t, 0, 1000, "at"), max(0, size())})
	}
	if chance(t, 50, "merge") {
		m := genMergeSrc(t)
		m.Pre = c.Src.Pre
		c.Merge = &m
		c.Newer = chance(t, 50, "newer")
	}
	return c
}

func checkC09Far(e *Env, c c09Far) Result {
	st := c.Src.state()
	x := st.index()
	file := filepath.Join(e.Dir, "v1")
	f, err := os.Create(file)
	must(err)
	defer f.Close()
	// Reduce the holes until the file is within the format's 4 GB.
	pad := map[uint32]int{}
	tris := append(sortedTrigrams(x.Post), 0xffffff)
	room := 1<<32 - 1<<24
	take := func(n int) int {
		n = max(0, min(n, room))
		room -= n
		return n
	}
	for i := range c.Skip {
		c.Skip[i] = take(c.Skip[i])
	}
	for _, p := range c.Pads {
		pad[tris[p.At%len(tris)]] += take(p.N)
	}
	w := &v1Layout{f: f}
	if !w.write(x, c.Skip, pad) {
		return Result{Invalid: true}
	}
	ix := index.Open(file)
	if d := diffIndex(ix, x, neighbours(x, 200)); d != "" {
		return fail("reading a version 1 index of %d bytes with %s\n%s", w.off, describe(st), d)
	}
	var r Result
	r.Nontrivial = len(x.Names) > 1 && w.off > 1<<20
	if w.off > 1<<31 {
		r.label("beyond 2 GB")
	}
	if c.Merge != nil {
		st2 := c.Merge.state()
		file2, out := filepath.Join(e.Dir, "v2"), filepath.Join(e.Dir, "out")
		must(makeSource(file2, st2))
		old, new := st, st2
		a, b := file, file2
		if c.Newer {
			old, new, a, b = st2, st, file2, file
		}
		want := mergeStates(old, new).index()
		if msg := catch(func() { index.Merge(out, a, b) }); msg != "" {
			return fail("merging a version 1 index of %d bytes: %s", w.off, msg)
		}
		if d := diffIndex(index.Open(out), want, neighbours(want, 200)); d != "" {
			return fail("merging a version 1 index of %d bytes (newer: %v) with %s\nand %s\n%s", w.off, c.Newer, describe(st), describe(st2), d)
		}
		r.label("merged")
	}
	return r
}

// Posting lists of version 1 files with large gaps.

type c09Gaps struct {
	N     int // files, named by number
	Lists []farList
	Merge bool
}

func genC09Gaps(t *rapid.T) c09Gaps {
	var c c09Gaps
	bits := intn(t, 1, 31, "maxgapbits")
	if chance(t, 15, "real") {
		bits = intn(t, 1, 16, "realbits")
		c.N = 1<<bits + intn(t, 0, 200, "dn")
		c.Merge = chance(t, 70, "merge")
	}
	tr := 0
	for n := intn(t, 1, 30, "nlists"); n > 0; n-- {
		step := intn(t, 1, 5, "tstep")
		if chance(t, 20, "bigstep") {
			step = intn(t, 1, 1<<17, "tbig")
		}
		if tr += step; tr >= 0xffffff {
			break
		}
		l := farList{Tri: B(triString(uint32(tr)))}
		id := -1
		for m := intn(t, 1, 12, "nids"); m > 0; m-- {
			g := 1<<intn(t, 0, bits, "gapbits") + intn(t, -2, 2, "dgap")
			if chance(t, 25, "small") {
				g = intn(t, 1, 300, "smallgap")
			}
			if g < 1 || id+g >= 1<<31 || c.N > 0 && id+g >= c.N {
				continue
			}
			id += g
			l.Gaps = append(l.Gaps, g)
		}
		if len(l.Gaps) > 0 {
			c.Lists = append(c.Lists, l)
		}
	}
	return c
}

func checkC09Gaps(e *Env, c c09Gaps) Result {
	x := &xindex{Roots: []string{"/a"}, Post: map[uint32][]int{}}
	if c.N > 1<<22 {
		return Result{Invalid: true}
	}
	for i := 0; i < c.N; i++ {
		x.Names = append(x.Names, fmt.Sprintf("/a/%06x", i))
	}
	var r Result
	for _, l := range c.Lists {
		if len(l.Tri) != 3 {
			return Result{Invalid: true}
		}
		id := -1
		var ids []int
		for _, g := range l.Gaps {
			id += g
			if g < 1 || id >= 1<<31 || c.N > 0 && id >= c.N {
				return Result{Invalid: true}
			}
			ids = append(ids, id)
			if g > 1<<14 {
				r.Nontrivial = true
			}
		}
		if id >= 1<<16 {
			r.label("file ids beyond 16 bits")
		}
		if id >= 1<<24 {
			r.label("file ids beyond 24 bits")
		}
		x.Post[tri(string(l.Tri))] = ids
	}
	file := filepath.Join(e.Dir, "v1")
	writeFile(file, string(encodeV1(x)))
	lists := func(ix *index.Index, what string) string {
		var prev []int
		for _, t := range sortedTrigrams(x.Post) {
			want := x.Post[t]
			if got := ix.PostingList(t); !eqInts(got, want) {
				return fmt.Sprintf("%s: PostingList(%#06x) = %s, want %s", what, t, clipInts(got), clipInts(want))
			}
			half := want[len(want)/2:]
			if got := ix.PostingAnd(append([]int{}, half...), t); !eqInts(got, half) {
				return fmt.Sprintf("%s: PostingAnd(%v, %#06x) = %v", what, half, t, got)
			}
			union := unionInts(prev, want)
			if got := ix.PostingOr(append([]int{}, prev...), t); !eqInts(got, union) {
				return fmt.Sprintf("%s: PostingOr(%v, %#06x) = %s, want %s", what, prev, t, clipInts(got), clipInts(union))
			}
			prev = want
		}
		for _, t := range neighbours(x, 200) {
			if _, ok := x.Post[t]; !ok {
				if got := ix.PostingList(t); len(got) != 0 {
					return fmt.Sprintf("%s: PostingList(%#06x) = %v, want none", what, t, got)
				}
			}
		}
		for i := 0; i < c.N; i += 1 + c.N/37 {
			if n := ix.Name(i).String(); n != x.Names[i] {
				return fmt.Sprintf("%s: Name(%d) = %q, want %q", what, i, n, x.Names[i])
			}
		}
		return ""
	}
	if d := lists(index.Open(file), "version 1 index"); d != "" {
		return fail("%s", d)
	}
	if c.N == 0 {
		return r
	}
	r.Nontrivial = r.Nontrivial || c.N > 1<<14
	if c.Merge {
		// A merge with an index of nothing keeps everything.
		out := filepath.Join(e.Dir, "out")
		empty := filepath.Join(e.Dir, "empty")
		writeFile(empty, string(encodeV2(&xindex{}, true, nil)))
		index.Merge(out, empty, file)
		if d := lists(index.Open(out), "merged"); d != "" {
			return fail("%s", d)
		}
		r.label("merged")
	}
	return r
}

func unionInts(a, b []int) []int {
	var u []int
	for len(a) > 0 || len(b) > 0 {
		switch {
		case len(b) == 0 || len(a) > 0 && a[0] < b[0]:
			u, a = append(u, a[0]), a[1:]
		case len(a) == 0 || b[0] < a[0]:
			u, b = append(u, b[0]), b[1:]
		default:
			u, a, b = append(u, a[0]), a[1:], b[1:]
		}
	}
	return u
}

func genC09Merge(t *rapid.T) c06Case {
	c := genC06(t)
	some := false
	for i := range c.Srcs {
		c.Srcs[i].V1 = chance(t, 60, "v1")
		some = some || c.Srcs[i].V1
	}
	if !some {
		c.Srcs[0].V1 = true
		c.Steps[0].A = 0
	}
	return c
}

func checkC09Merge(e *Env, c c06Case) Result { return runMerges(e, c, true) }

// C10

type c10Case struct {
	Src    mergeSrc
	Merge  *mergeSrc `json:",omitempty"` // merged on top
	Tamper *struct {
		Pick  int // which trigram
		Count int // added to the count (0: none)
		List  uint32
		Swap  int // let the entry point at the next list
	} `json:",omitempty"`
	CLI int // 0: library; 1: cindex -list -check; 2: update with -check
}

func genC10Good(t *rapid.T) c10Case {
	c := c10Case{Src: genMergeSrc(t)}
	if chance(t, 50, "merge") {
		m := genMergeSrc(t)
		m.Pre = c.Src.Pre
		c.Merge = &m
	}
	return c
}

func checkC10Good(e *Env, c c10Case) Result {
	var r Result
	check := func(file, what string) string {
		var cerr error
		msg := catch(func() { cerr = index.Open(file).Check() })
		if msg != "" || cerr != nil {
			return fmt.Sprintf("Check of %s: %v %s", what, cerr, msg)
		}
		return ""
	}
	build := func(s *mergeSrc, file string) *mstate {
		st := s.state()
		must(makeSource(file, st))
		return st
	}
	f1 := filepath.Join(e.Dir, "1")
	st := build(&c.Src, f1)
	if d := check(f1, "a new index of\n"+describe(st)); d != "" {
		return fail("%s", d)
	}
	r.Nontrivial = len(st.files) > 1
	if c.Merge != nil {
		f2, f3 := filepath.Join(e.Dir, "2"), filepath.Join(e.Dir, "3")
		st2 := build(c.Merge, f2)
		index.Merge(f3, f1, f2)
		if d := check(f3, "the merge of\n"+describe(st)+"\nwith\n"+describe(st2)); d != "" {
			return fail("%s", d)
		}
		r.label("merged")
	}
	f4 := filepath.Join(e.Dir, "4")
	writeFile(f4, string(encodeV2(st.index(), true, nil)))
	if d := check(f4, "an index laid out by the documentation of\n"+describe(st)); d != "" {
		return fail("%s", d)
	}
	return r
}

func genC10Bad(t *rapid.T) c10Case {
	c := c10Case{Src: genMergeSrc(t)}
	c.Tamper = &struct {
		Pick  int
		Count int
		List  uint32
		Swap  int
	}{Pick: intn(t, 0, 200, "pick")}
	if chance(t, 10, "many") && len(c.Src.Roots) > 0 {
		// Long lists.
		n := 1 << intn(t, 4, 12, "manylog")
		c.Src.Many = n + intn(t, 0, n, "manyoff")
	}
	switch intn(t, 0, 3, "tamper") {
	case 0:
		c.Tamper.Count = pick(t, []int{1, -1, 2, -2, 15, 16, 17, 127, 128, -10, 1000, 256, -256, 1 << 16, 3 << 16, 1 << 31, 1 << 32, 1 << 40}, "dcount")
	case 1:
		c.Tamper.List = pick(t, []uint32{1, 2, 0x80, 0x100, 0x010000, 0x800000, 0x202020, 0x0100ff}, "xor")
	case 2:
		c.Tamper.Swap = 1
	case 3:
		c.Tamper.Count = intn(t, 1, 5, "dcount2")
	}
	c.CLI = 0
	if chance(t, 30, "cli") {
		c.CLI = intn(t, 1, 2, "clikind")
	}
	return c
}

func checkC10Bad(e *Env, c c10Case) Result {
	st := c.Src.state()
	// Keep paths on disk harmless: they need not exist.
	x := st.index()
	tris := sortedTrigrams(x.Post)
	if len(tris) == 0 || c.Tamper == nil {
		return Result{Invalid: true}
	}
	k := c.Tamper.Pick % len(tris)
	tp := &tamper{Tri: tris[k], Count: c.Tamper.Count, List: c.Tamper.List}
	n := len(x.Post[tris[k]])
	if n+tp.Count < 0 {
		tp.Count = -n
	}
	if c.Tamper.Swap > 0 {
		// Point the entry at the next list.
		if k+1 >= len(tris) {
			return Result{Invalid: true}
		}
		tp.Off = listOffset(x, tris[k+1]) - listOffset(x, tris[k])
	}
	if tp.Count == 0 && tp.List == 0 && tp.Off == 0 {
		return Result{Invalid: true}
	}
	file := filepath.Join(e.Dir, "bad")
	writeFile(file, string(encodeV2(x, true, tp)))
	what := fmt.Sprintf("an index of\n%s\nwhose posting list for %q was changed (%+v)", describe(st), triString(tp.Tri), *tp)
	var r Result
	r.Nontrivial = true
	env := []string{"CSEARCHINDEX=" + file}
	switch c.CLI {
	case 0:
		p := e.run(runOpt{env: []string{"TMPDIR=" + os.TempDir()}}, os.Args[0], "ixcheck", file)
		if p.Code == 0 {
			return fail("Check accepts %s", what)
		}
		r.label("library")
	case 1:
		p := e.run(runOpt{env: env}, e.tool("cindex"), "-list", "-check")
		if p.Code == 0 {
			return fail("cindex -list -check accepts %s", what)
		}
		r.label("cindex -list -check")
	case 2:
		src := filepath.Join(e.Dir, "src")
		writeFile(src+"/f", "text\n")
		env = append(env, "TMPDIR="+os.TempDir())
		before := readAll(file)
		p := e.run(runOpt{env: env}, e.tool("cindex"), "-check", src)
		if p.Code == 0 {
			return fail("cindex -check accepts %s", what)
		}
		if !bytes.Equal(before, readAll(file)) {
			return fail("cindex -check changed the index that it refused: %s", what)
		}
		r.label("cindex -check")
	}
	if tp.Count != 0 {
		r.label("count")
	}
	if tp.List != 0 {
		r.label("trigram")
	}
	return r
}

// listOffset is where encodeV2 puts the list of t.
func listOffset(x *xindex, t uint32) int {
	off := 0
	for _, u := range sortedTrigrams(x.Post) {
		if u == t {
			break
		}
		var g gammaWriter
		id := -1
		for _, i := range x.Post[u] {
			g.delta(i - id)
			id = i
		}
		g.delta(0)
		off += 3 + len(g.b)
	}
	return off
}

// C11

type c11Case struct {
	Src   mergeSrc
	Merge *mergeSrc `json:",omitempty"`
	V1    bool
	Cuts  []int // additional cut points (taken modulo length) for the commands
}

func genC11(t *rapid.T) c11Case {
	c := c11Case{Src: genMergeSrc(t), V1: chance(t, 15, "v1")}
	if chance(t, 30, "merge") {
		m := genMergeSrc(t)
		m.Pre = c.Src.Pre
		c.Merge = &m
	}
	for n := intn(t, 1, 3, "ncuts"); n > 0; n-- {
		c.Cuts = append(c.Cuts, intn(t, 0, 1<<20, "cut"))
	}
	return c
}

func checkC11(e *Env, c c11Case) Result {
	st := c.Src.state()
	file := filepath.Join(e.Dir, "ix")
	if c.V1 {
		writeFile(file, string(encodeV1(st.index())))
	} else {
		must(makeSource(file, st))
		if c.Merge != nil {
			st2 := c.Merge.state()
			must(makeSource(file+"2", st2))
			index.Merge(file+"3", file, file+"2")
			file += "3"
		}
	}
	data := readAll(file)
	var r Result
	r.Nontrivial = true
	// Opening in the library, at every cut point of small indexes.
	step := 1 + len(data)/4000
	cut := filepath.Join(e.Dir, "cut")
	points := 0
	for n := 0; n < len(data); n += step {
		must(os.WriteFile(cut, data[:n], 0666))
		if opened := tryOpen(e, cut); opened {
			return fail("an index of %d bytes cut off after %d was opened (%s)", len(data), n, describe(st))
		}
		points++
		if n > 300 && n < len(data)-200 {
			n += 37
		}
	}
	r.label("opens")
	src := filepath.Join(e.Dir, "src")
	writeFile(src+"/f", "hello abc\n")
	for i, k := range c.Cuts {
		n := k % len(data)
		if k%3 == 0 {
			n = len(data) - 1 - k/3%min(len(data), 100)
		}
		must(os.WriteFile(cut, data[:n], 0666))
		env := []string{"CSEARCHINDEX=" + cut, "TMPDIR=" + os.TempDir()}
		args := [][]string{{"csearch", "-brute", "."}, {"csearch", "abc"}, {"cindex", src}, {"cindex"}, {"cindex", "-list"}}[i%5]
		p := e.run(runOpt{env: env}, append([]string{e.tool(args[0])}, args[1:]...)...)
		if p.Code == 0 || len(p.Out) > 0 {
			return fail("%v on an index of %d bytes cut off after %d: %v", args, len(data), n, p)
		}
		if args[0] == "cindex" {
			if b := readAll(cut); !bytes.Equal(b, data[:n]) {
				return fail("%v changed an index cut off after %d of %d bytes, now %d bytes", args, n, len(data), len(b))
			}
		}
		r.label("%s", strings.Join(args[:1], " "))
	}
	return r
}

// tryOpen reports whether index.Open accepts the file.
func tryOpen(e *Env, file string) bool {
	return catch(func() { index.Open(file) }) == ""
}

func init() {
	commands["ixcheck"] = func(args []string) {
		if err := index.Open(args[0]).Check(); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}

	rules["C06"] = "two to four sources with roots from a pool of nested, sibling and extending paths, files below them (also zip members and files that are roots), merged in random pairs up to four times, results merged again; up to 70000 files and up to tens of thousands of roots a source; common prefixes of up to 18000 bytes; non-trivial: a merge replaces some files of the older index and keeps others"
	assumptions["C06"] = []string{"sources are as cindex makes them: no root of a source lies below another, every name lies below a root", "a path lies below a root also when it names a zip member of it"}
	nul := c06Case{Srcs: []mergeSrc{{Roots: []B{"/a"}, Files: []mfile{{"/a/x", "abc"}}}, {Roots: []B{"/b"}, Files: []mfile{{"/b/y", "abcd"}}}, {}}, Steps: []mergeStep{{0, 1}, {3, 0}, {4, 2}, {2, 5}}}
	slash := c06Case{Srcs: []mergeSrc{{Roots: []B{"/a"}, Files: []mfile{{"/a/x", "abc"}}}, {Roots: []B{"/"}, Files: []mfile{{"/a/y", "bcd"}, {"/c", "abc"}}}}, Steps: []mergeStep{{0, 1}, {2, 0}, {1, 0}}}
	reg("C06", "merge", opts{quick: 9000, thorough: 400000, recycle: 120, gcOff: true}, genC06, checkC06, nul, slash)

	rules["C09"] = "contents laid out in the version 1 format by an encoder written from its documentation; reading compared with the model, merges of version 1 and 2 sources compared with the model, and files with unused space up to the 4 GB that 32-bit offsets reach; also with up to 70000 files; non-trivial: reading at least two files (from a file of more than 1 MB in suite far), or a merge that replaces some files and keeps others"
	assumptions["C09"] = []string{"version 1 files come from the harness's own encoder"}
	reg("C09", "read", opts{quick: 8000, thorough: 400000, recycle: 2000}, genC09Read, checkC09Read)
	v1 := slash
	v1.Srcs = []mergeSrc{{Roots: []B{"/a"}, Files: []mfile{{"/a/x", "abc"}}, V1: true}, {Roots: []B{"/a/b"}, Files: []mfile{{"/a/b/y", "bcd"}}, V1: true}}
	v1.Steps = []mergeStep{{0, 1}, {1, 0}, {2, 1}}
	reg("C09", "far", opts{quick: 1500, thorough: 60000, recycle: 200}, genC09Far, checkC09Far)
	reg("C09", "gaps", opts{quick: 4000, thorough: 200000, recycle: 1000}, genC09Gaps, checkC09Gaps,
		c09Gaps{Lists: []farList{{Tri: "abc", Gaps: []int{1, 1 << 7, 1<<14 - 1, 1 << 14, 1<<16 - 1, 1 << 16, 1 << 21, 1 << 28, 1 << 30}}}},
		c09Gaps{N: 70000, Merge: true, Lists: []farList{{Tri: "abc", Gaps: []int{1, 40000, 1}}, {Tri: "abd", Gaps: []int{70000}}}})
	reg("C09", "merge", opts{quick: 6000, thorough: 300000, recycle: 150, gcOff: true}, genC09Merge, checkC09Merge, v1)

	rules["C10"] = "good indexes from indexing, merging and the documented layout(also of 70000 files); bad ones laid out with one posting list (of up to 8000 ids) whose trigram or length differs from its index entry; non-trivial: a good index with at least two files, or a bad one"
	reg("C10", "good", opts{quick: 7000, thorough: 300000, recycle: 150, gcOff: true}, genC10Good, checkC10Good)
	reg("C10", "bad", opts{quick: 3000, thorough: 200000, recycle: 5000}, genC10Bad, checkC10Bad)

	rules["C11"] = "indexes written, merged and in the old format, cut off at every length (small ones) or a sample of lengths, opened through the library, csearch and cindex; every case is non-trivial"
	reg("C11", "cut", opts{quick: 700, thorough: 30000, recycle: 20}, genC11, checkC11)
}
