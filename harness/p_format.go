package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"

	"github.com/google/codesearch/index"
	"pgregory.net/rapid"
)

// C08: the version 2 format, in both directions.

func checkC08Written(e *Env, c c03Case) Result {
	var files []mfile
	for _, f := range dedupe(c.files()) {
		if textVerdict(string(f.Text)) == textYes {
			files = append(files, f)
		}
	}
	roots := c.roots()
	x := modelIndex(roots, files)
	file := filepath.Join(e.Dir, "ix")
	if c.Spill > 0 {
		old := setSpillLimit(c.Spill)
		defer setSpillLimit(old)
	}
	if err := buildIndex(file, roots, files); err != nil {
		return fail("%v", err)
	}
	data := readAll(file)
	dec, err := decodeV2(data)
	if err != nil {
		return fail("an independent reader cannot read the index of %d files: %v", len(files), err)
	}
	if d := diffX(dec, x); d != "" {
		return fail("an independent reader finds %s", d)
	}
	var r Result
	r.Nontrivial = len(files) > 1
	if len(files) > 16 {
		r.label("several name groups")
	}
	if len(x.Post) > 64 {
		r.label("several posting index blocks")
	}
	return r
}

type farList struct {
	Tri  B
	Gaps []int // differences of file ids, from -1
	Pad  int   // unused bytes in front of the list
}

type farCase struct {
	Roots    []B
	Names    []B
	Lists    []farList
	Skip     [4]int // unused bytes before names, posting lists, name index, posting index
	Sentinel bool   // the posting index has an entry for the end of the lists
}

func genFar(t *rapid.T, far bool) farCase {
	var c farCase
	c.Roots = toB(sortRoots(genRootSet(t, 0, 5)))
	roots := fromB(c.Roots)
	if len(roots) == 0 {
		roots = []string{"/a"}
	}
	for _, f := range genFiles(t, roots, 40, 1) {
		c.Names = append(c.Names, f.Name)
	}
	c.Names = toB(sortRoots(fromB(c.Names)))
	n := intn(t, 0, 40, "nlists")
	if chance(t, 20, "lots") {
		n = intn(t, 40, 150, "nlots")
	}
	tr := 0
	for i := 0; i < n; i++ {
		step := intn(t, 1, 5, "tstep")
		if chance(t, 20, "bigstep") {
			step = intn(t, 1, 1<<17, "tbig")
		}
		tr += step
		if tr >= 0xffffff {
			break
		}
		l := farList{Tri: B(triString(uint32(tr)))}
		for m := intn(t, 1, 8, "nids"); m > 0; m-- {
			g := intn(t, 1, 40, "gap")
			if chance(t, 40, "biggap") {
				k := 33
				if !far {
					k = 16
				}
				if far && chance(t, 10, "hugegap") {
					k = 60
				}
				k = intn(t, 2, k, "gapbits")
				g = 1<<k + intn(t, -2, 2, "dgap")
			}
			l.Gaps = append(l.Gaps, g)
		}
		if far && chance(t, 15, "pad") {
			l.Pad = 1 << intn(t, 0, 36, "padbits")
		}
		c.Lists = append(c.Lists, l)
	}
	if far {
		for i := range c.Skip {
			if chance(t, 30, "skip") {
				c.Skip[i] = 1<<intn(t, 0, 36, "skipbits") + intn(t, 0, 20, "dskip")
			}
		}
	}
	c.Sentinel = chance(t, 60, "sentinel")
	return c
}

// A sparseFile assembles a file with large holes.
type sparseFile struct {
	f   *os.File
	off int
}

func (w *sparseFile) write(b []byte) {
	if len(b) > 0 {
		_, err := w.f.WriteAt(b, int64(w.off))
		must(err)
	}
	w.off += len(b)
}

func checkFar(e *Env, c farCase) Result {
	file := filepath.Join(e.Dir, "ix")
	f, err := os.Create(file)
	must(err)
	defer f.Close()
	w := &sparseFile{f: f}
	var v [8]int
	w.write([]byte("csearch index 2\n"))
	v[0], v[1] = w.off, len(c.Roots)
	b, _ := appendPaths(nil, fromB(c.Roots), 0)
	w.write(b)
	w.off += c.Skip[0]
	v[2], v[3] = w.off, len(c.Names)
	b, offs := appendPaths(nil, fromB(c.Names), 16)
	if len(c.Names) == 0 {
		offs = nil
	}
	w.write(b)
	w.off += c.Skip[1]
	v[4] = w.off
	var pi []byte
	last := 0
	entry := func(t uint32, count, off int) {
		mk := func(base int) []byte {
			e := []byte{byte(t >> 16), byte(t >> 8), byte(t)}
			e = binary.AppendUvarint(e, uint64(count))
			return binary.AppendUvarint(e, uint64(off-base))
		}
		room := 256 - len(pi)%256
		if room == 256 {
			last = 0
		}
		e := mk(last)
		if len(e) > room {
			for len(pi)%256 != 0 {
				pi = append(pi, 0)
			}
			e = mk(0)
		}
		pi = append(pi, e...)
		last = off
		v[5]++
	}
	post := map[uint32][]int{}
	maxID := 0
	for _, l := range c.Lists {
		if len(l.Tri) != 3 {
			return Result{Invalid: true}
		}
		t := tri(string(l.Tri))
		w.off += l.Pad
		entry(t, len(l.Gaps), w.off-v[4])
		b := []byte(l.Tri)
		var g gammaWriter
		id := -1
		for _, d := range l.Gaps {
			if d < 1 || d > 1<<61 || id+d >= 1<<62 {
				return Result{Invalid: true}
			}
			id += d
			g.delta(d)
			post[t] = append(post[t], id)
		}
		maxID = max(maxID, id)
		g.delta(0)
		w.write(append(b, g.b...))
	}
	if c.Sentinel {
		entry(0xffffff, 0, w.off-v[4])
	}
	var g gammaWriter
	g.delta(0)
	w.write(append([]byte{0xff, 0xff, 0xff}, g.b...))
	w.off += c.Skip[2]
	v[6] = w.off
	for _, o := range offs {
		w.write(binary.BigEndian.AppendUint64(nil, uint64(o)))
	}
	w.off += c.Skip[3]
	v[7] = w.off
	for len(pi)%256 != 0 {
		pi = append(pi, 0)
	}
	w.write(pi)
	for _, n := range v {
		w.write(binary.BigEndian.AppendUint64(nil, uint64(n)))
	}
	w.write([]byte("\ncsearch trlr 2\n"))
	if w.off > 1<<40 {
		return Result{Invalid: true}
	}

	ix := index.Open(file)
	if r := readRoots(ix); !eqStrings(r, fromB(c.Roots)) {
		return fail("Roots() = %s, want %s", clipList(r), c.Roots)
	}
	names := fromB(c.Names)
	var got []string
	for p := range ix.Names(0, len(names)) {
		got = append(got, p.String())
	}
	if !eqStrings(got, names) {
		return fail("Names() = %s, want %s", clipList(got), clipList(names))
	}
	for i := range names {
		if s := ix.Name(i).String(); s != names[i] {
			return fail("Name(%d) = %q, want %q", i, s, names[i])
		}
	}
	x := &xindex{Post: post}
	for t, want := range post {
		if got := ix.PostingList(t); !eqInts(got, want) {
			return fail("PostingList(%#06x) = %s, want %s", t, clipInts(got), clipInts(want))
		}
		half := want[len(want)/2:]
		list := append([]int{}, half...)
		if got := ix.PostingAnd(list, t); !eqInts(got, half) {
			return fail("PostingAnd(%v, %#06x) = %v", half, t, got)
		}
		other := []int{0, 1 << 62}
		union := append([]int{}, want...)
		if want[0] != 0 {
			union = append([]int{0}, union...)
		}
		union = append(union, 1<<62)
		if got := ix.PostingOr(other, t); !eqInts(got, union) {
			return fail("PostingOr(%v, %#06x) = %s, want %s", other, t, clipInts(got), clipInts(union))
		}
	}
	for _, t := range neighbours(x, 400) {
		if post[t] == nil {
			if got := ix.PostingList(t); len(got) != 0 {
				return fail("PostingList(%#06x) = %v, want none", t, got)
			}
		}
	}
	if msg := catch(func() {
		if err := ix.Check(); err != nil {
			panic(err)
		}
	}); msg != "" {
		return fail("Check of an index laid out as documented: %s", msg)
	}
	var r Result
	r.Nontrivial = len(post) > 1
	if w.off > 1<<32 {
		r.label("file beyond 4 GB")
	}
	if maxID >= 1<<32 {
		r.label("file ids beyond 32 bits")
	}
	if maxID >= 1<<40 {
		r.label("file ids beyond 40 bits")
	}
	if len(pi) > 256 {
		r.label("several posting index blocks")
	}
	return r
}

func init() {
	rules["C08"] = "indexes written from generated file sets and by merges, decoded by an independent strict reader; indexes laid out by the harness with file-id gaps around powers of two up to 2^60, unused space up to 64 GB between lists and sections (sparse files), read back, and for up to about 70000 files; paths with a common prefix of up to 100000 bytes; non-trivial: at least two files, two lists, or a merge that replaces some files and keeps others"
	assumptions["C08"] = []string{"γ codes are read least significant bit first (the documentation leaves the bit order open)", "an index entry for the end-of-lists marker is allowed but not required"}
	reg("C08", "written", opts{quick: 8000, thorough: 400000, recycle: 300, gcOff: true}, genC03, checkC08Written)
	reg("C08", "writtenbig", opts{quick: 300, thorough: 10000, recycle: 30}, genC03Big, checkC08Written)
	reg("C08", "merged", opts{quick: 3000, thorough: 150000, recycle: 120, gcOff: true}, genC06, checkC06)
	reg("C08", "read", opts{quick: 8000, thorough: 400000, recycle: 3000}, func(t *rapid.T) farCase { return genFar(t, false) }, checkFar)
	reg("C08", "far", opts{quick: 3000, thorough: 150000, recycle: 1000}, func(t *rapid.T) farCase { return genFar(t, true) }, checkFar)
	_ = fmt.Sprint
}
