package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
)

// An xindex is the content of an index: what a reader must report.
type xindex struct {
	Roots []string
	Names []string
	Post  map[uint32][]int
}

// pathKey maps the documented path order to byte order.
func pathKey(p string) string { return strings.ReplaceAll(p, "/", "\x00") }

func pathLess(a, b string) bool { return pathKey(a) < pathKey(b) }

// below reports whether p is root or lies below it, treating zip members as
// lying below their archive if zip is set.
func below(p, root string) bool {
	if p == root || root == "/" && strings.HasPrefix(p, "/") {
		return true
	}
	if !strings.HasPrefix(p, root) {
		return false
	}
	c := p[len(root)]
	return c == '/' || c == 1
}

type mfile struct {
	Name B
	Text B
}

// modelIndex is the index of the given files (sorted here).
func modelIndex(roots []string, files []mfile) *xindex {
	x := &xindex{Post: map[uint32][]int{}}
	x.Roots = append(x.Roots, roots...)
	sort.Slice(x.Roots, func(i, j int) bool { return pathLess(x.Roots[i], x.Roots[j]) })
	files = append([]mfile(nil), files...)
	sort.Slice(files, func(i, j int) bool { return pathLess(string(files[i].Name), string(files[j].Name)) })
	for id, f := range files {
		x.Names = append(x.Names, string(f.Name))
		seen := map[uint32]bool{}
		for i := 0; i+3 <= len(f.Text); i++ {
			t := tri(string(f.Text[i : i+3]))
			if !seen[t] {
				seen[t] = true
				x.Post[t] = append(x.Post[t], id)
			}
		}
	}
	return x
}

func tri(s string) uint32 { return uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2]) }

func triString(t uint32) string { return string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}) }

func sortedTrigrams(m map[uint32][]int) []uint32 {
	l := make([]uint32, 0, len(m))
	for t := range m {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func readRoots(ix *index.Index) []string {
	var l []string
	for p := range ix.Roots().All() {
		l = append(l, p.String())
	}
	return l
}

func clipList(l []string) string {
	if len(l) > 12 {
		return fmt.Sprintf("%q... (%d)", l[:12], len(l))
	}
	return fmt.Sprintf("%q", l)
}

func clipInts(l []int) string {
	if len(l) > 40 {
		return fmt.Sprintf("%v... (%d)", l[:40], len(l))
	}
	return fmt.Sprintf("%v", l)
}

// diffIndex compares what the index reader reports with the model.
// absent lists trigrams to look up besides those of the model.
func diffIndex(ix *index.Index, x *xindex, absent []uint32) string {
	if r := readRoots(ix); !eqStrings(r, x.Roots) {
		return fmt.Sprintf("Roots() = %s, want %s", clipList(r), clipList(x.Roots))
	}
	n := len(x.Names)
	// All names, by one range.
	i := 0
	for p := range ix.Names(0, n) {
		if i >= n || p.String() != x.Names[i] {
			return fmt.Sprintf("Names(0, %d)[%d] = %q, want %s", n, i, clip(p.String()), clipAt(x.Names, i))
		}
		i++
	}
	if i != n {
		return fmt.Sprintf("Names(0, %d) has %d names, want %d", n, i, n)
	}
	for i := 0; i < n; i += 1 + n/300 {
		if s := ix.Name(i).String(); s != x.Names[i] {
			return fmt.Sprintf("Name(%d) = %q, want %q", i, clip(s), clip(x.Names[i]))
		}
	}
	for lo := 0; lo < n; lo += 1 + n/10 {
		hi := min(n, lo+1+lo*7%40)
		want := x.Names[lo:hi]
		var got []string
		for p := range ix.Names(lo, hi) {
			got = append(got, p.String())
		}
		if !eqStrings(got, want) {
			return fmt.Sprintf("Names(%d, %d) = %s, want %s", lo, hi, clipList(got), clipList(want))
		}
		got = nil
		for r := ix.NamesAt(lo, hi); r.Valid(); r.Next() {
			got = append(got, r.Path().String())
		}
		if !eqStrings(got, want) {
			return fmt.Sprintf("NamesAt(%d, %d) reads %s, want %s", lo, hi, clipList(got), clipList(want))
		}
	}
	if l := ix.PostingQuery(&index.Query{Op: index.QAll}); len(l) != n {
		return fmt.Sprintf("PostingQuery(ALL) = %s, want all of %d files", clipInts(l), n)
	}
	for t, want := range x.Post {
		if got := ix.PostingList(t); !eqInts(got, want) {
			return fmt.Sprintf("PostingList(%#06x %q) = %s, want %s", t, triString(t), clipInts(got), clipInts(want))
		}
	}
	for _, t := range absent {
		if _, ok := x.Post[t]; ok {
			continue
		}
		if got := ix.PostingList(t); len(got) != 0 {
			return fmt.Sprintf("PostingList(%#06x %q) = %s, but no file contains it", t, triString(t), clipInts(got))
		}
	}
	return ""
}

func clipAt(l []string, i int) string {
	if i >= len(l) {
		return fmt.Sprintf("only %d names", len(l))
	}
	return fmt.Sprintf("%q", clip(l[i]))
}

// neighbours returns trigrams close to those in the model: the likely
// confusions of a search in the posting index.
func neighbours(x *xindex, max int) []uint32 {
	l := []uint32{1, 2, 0x616161, 0xfffffe, 0xf7bfbf, 0x20, 0xf4}
	for _, t := range sortedTrigrams(x.Post) {
		if len(l) >= max {
			break
		}
		if t > 1 {
			l = append(l, t-1)
		}
		l = append(l, t+1)
		if t^0x010000 != 0 {
			l = append(l, t^0x010000)
		}
	}
	return l
}

// An independent reader of the documented version 2 format.

type gammaReader struct {
	d    []byte
	pos  int // bit position
	fail bool
}

func (g *gammaReader) bit() int {
	if g.pos>>3 >= len(g.d) {
		g.fail = true
		return 1
	}
	b := g.d[g.pos>>3] >> (g.pos & 7) & 1
	g.pos++
	return int(b)
}

// delta reads one γ-coded delta (γ value 16 means 0, larger ones are one less).
func (g *gammaReader) delta() int {
	lg := 0
	for g.bit() == 0 {
		lg++
		if lg > 62 {
			g.fail = true
			return 0
		}
	}
	x := 1 << lg
	for i := 0; i < lg; i++ {
		x |= g.bit() << i
	}
	if x == 16 {
		return 0
	}
	if x > 16 {
		return x - 1
	}
	return x
}

func uvar(d []byte, off *int) (int, bool) {
	if *off > len(d) {
		return 0, false
	}
	v, n := binary.Uvarint(d[*off:])
	if n <= 0 || v > 1<<62 {
		return 0, false
	}
	*off += n
	return int(v), true
}

func decodePaths(d []byte, n, group int) (paths []string, offsets []int, used int, err error) {
	off := 0
	last := ""
	for i := 0; i < n; i++ {
		start := off
		pre, ok1 := uvar(d, &off)
		suf, ok2 := uvar(d, &off)
		if !ok1 || !ok2 || pre > len(last) || off+suf > len(d) {
			return nil, nil, 0, fmt.Errorf("path %d of %d at offset %d is malformed", i, n, start)
		}
		if group > 0 && i%group == 0 {
			offsets = append(offsets, start)
			if pre != 0 {
				return nil, nil, 0, fmt.Errorf("path %d has prefix length %d, want 0", i, pre)
			}
		}
		p := last[:pre] + string(d[off:off+suf])
		off += suf
		if i > 0 && !pathLess(last, p) {
			return nil, nil, 0, fmt.Errorf("paths not sorted: %q, %q", last, p)
		}
		paths = append(paths, p)
		last = p
	}
	return paths, offsets, off, nil
}

func allZero(d []byte) bool {
	for _, c := range d {
		if c != 0 {
			return false
		}
	}
	return true
}

// decodeV2 reads a version 2 index strictly by its documentation.
func decodeV2(d []byte) (*xindex, error) {
	const head, tail = "csearch index 2\n", "\ncsearch trlr 2\n"
	if len(d) < len(head)+64+len(tail) || string(d[:len(head)]) != head {
		return nil, fmt.Errorf("bad header or length %d", len(d))
	}
	if string(d[len(d)-len(tail):]) != tail {
		return nil, fmt.Errorf("bad trailer magic")
	}
	tr := len(d) - len(tail) - 64
	var v [8]int
	for i := range v {
		u := binary.BigEndian.Uint64(d[tr+8*i:])
		if u > uint64(len(d)) {
			return nil, fmt.Errorf("trailer value %d is %d, larger than the file", i, u)
		}
		v[i] = int(u)
	}
	rootOff, nRoot, nameOff, nName, postOff, nPost, nameIx, postIx := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	if !(len(head) <= rootOff && rootOff <= nameOff && nameOff <= postOff && postOff <= nameIx && nameIx <= postIx && postIx <= tr) {
		return nil, fmt.Errorf("section offsets out of order: %v", v)
	}
	if rootOff != len(head) {
		return nil, fmt.Errorf("root list at %d, want %d", rootOff, len(head))
	}
	x := &xindex{Post: map[uint32][]int{}}
	var err error
	var used int
	if x.Roots, _, used, err = decodePaths(d[rootOff:nameOff], nRoot, 0); err != nil {
		return nil, fmt.Errorf("roots: %v", err)
	}
	if rest := d[rootOff+used : nameOff]; len(rest) > 16 || !allZero(rest) {
		return nil, fmt.Errorf("junk after the list of roots")
	}
	var offs []int
	if x.Names, offs, used, err = decodePaths(d[nameOff:postOff], nName, 16); err != nil {
		return nil, fmt.Errorf("names: %v", err)
	}
	if rest := d[nameOff+used : postOff]; len(rest) > 16 || !allZero(rest) {
		return nil, fmt.Errorf("junk after the list of names")
	}
	// Name index.
	for i, o := range offs {
		p := nameIx + 8*i
		if p+8 > postIx {
			return nil, fmt.Errorf("name index too short")
		}
		if got := binary.BigEndian.Uint64(d[p:]); got != uint64(o) {
			return nil, fmt.Errorf("name index entry %d is %d, want %d", i, got, o)
		}
	}
	if rest := d[nameIx+8*len(offs) : postIx]; len(rest) > 16 || !allZero(rest) {
		return nil, fmt.Errorf("junk after the name index")
	}
	// Posting lists, in sequence.
	type list struct {
		t     uint32
		off   int
		count int
	}
	var lists []list
	pd := d[postOff:nameIx]
	off := 0
	for {
		if off+3 > len(pd) {
			return nil, fmt.Errorf("list of posting lists has no end")
		}
		t := uint32(pd[off])<<16 | uint32(pd[off+1])<<8 | uint32(pd[off+2])
		start := off
		g := gammaReader{d: pd[off+3:]}
		id := -1
		var ids []int
		for {
			dl := g.delta()
			if g.fail {
				return nil, fmt.Errorf("posting list of %#06x is cut off", t)
			}
			if dl == 0 {
				break
			}
			id += dl
			if id >= nName {
				return nil, fmt.Errorf("posting list of %#06x names file %d of %d", t, id, nName)
			}
			ids = append(ids, id)
		}
		off += 3 + (g.pos+7)/8
		lists = append(lists, list{t, start, len(ids)})
		if t == 0xffffff {
			if len(ids) != 0 {
				return nil, fmt.Errorf("end entry is not empty")
			}
			break
		}
		if t == 0 {
			return nil, fmt.Errorf("posting list for trigram 0")
		}
		if n := len(lists); n > 1 && lists[n-2].t >= t {
			return nil, fmt.Errorf("posting lists not sorted: %#06x, %#06x", lists[n-2].t, t)
		}
		if len(ids) > 0 {
			x.Post[t] = ids
		}
	}
	if rest := pd[off:]; len(rest) > 16 || !allZero(rest) {
		return nil, fmt.Errorf("junk after the posting lists: %d bytes", len(rest))
	}
	// Posting index.
	pi := d[postIx:tr]
	if extra := len(pi) % 256; extra > 15 || !allZero(pi[len(pi)-extra:]) {
		return nil, fmt.Errorf("posting index of %d bytes is not a multiple of 256", len(pi))
	}
	pi = pi[:len(pi)/256*256]
	var entries []list
	for len(pi) > 0 {
		b := pi[:256]
		pi = pi[256:]
		p := 0
		o := 0
		for p+3 <= 256 && !(b[p] == 0 && b[p+1] == 0 && b[p+2] == 0) {
			t := uint32(b[p])<<16 | uint32(b[p+1])<<8 | uint32(b[p+2])
			p += 3
			c, ok1 := uvar(b, &p)
			dl, ok2 := uvar(b, &p)
			if !ok1 || !ok2 {
				return nil, fmt.Errorf("posting index entry for %#06x crosses its block", t)
			}
			o += dl
			entries = append(entries, list{t, o, c})
		}
		if p == 0 {
			return nil, fmt.Errorf("empty posting index block")
		}
		if !allZero(b[p:]) {
			return nil, fmt.Errorf("junk after the entries of a posting index block")
		}
	}
	if len(entries) != nPost {
		return nil, fmt.Errorf("trailer says %d posting lists, index has %d", nPost, len(entries))
	}
	// Entries must describe the lists in order; empty lists may be left out.
	j := 0
	for _, e := range entries {
		for j < len(lists) && lists[j].t < e.t {
			if lists[j].count > 0 {
				return nil, fmt.Errorf("no posting index entry for %#06x", lists[j].t)
			}
			j++
		}
		if j >= len(lists) || lists[j] != e {
			return nil, fmt.Errorf("posting index entry %+v does not describe a list", e)
		}
		j++
	}
	for ; j < len(lists); j++ {
		if lists[j].count > 0 {
			return nil, fmt.Errorf("no posting index entry for %#06x", lists[j].t)
		}
	}
	return x, nil
}

func diffX(got, want *xindex) string {
	if !eqStrings(got.Roots, want.Roots) {
		return fmt.Sprintf("roots %s, want %s", clipList(got.Roots), clipList(want.Roots))
	}
	if !eqStrings(got.Names, want.Names) {
		return fmt.Sprintf("names %s, want %s", clipList(got.Names), clipList(want.Names))
	}
	for t, w := range want.Post {
		if !eqInts(got.Post[t], w) {
			return fmt.Sprintf("posting list of %#06x %q is %s, want %s", t, triString(t), clipInts(got.Post[t]), clipInts(w))
		}
	}
	for t, g := range got.Post {
		if len(want.Post[t]) == 0 && len(g) > 0 {
			return fmt.Sprintf("posting list of %#06x %q is %s, want none", t, triString(t), clipInts(g))
		}
	}
	return ""
}

// Encoders written from the documentation.

type gammaWriter struct {
	b  []byte
	nb int
}

func (g *gammaWriter) bit(v int) {
	if g.nb&7 == 0 {
		g.b = append(g.b, 0)
	}
	g.b[len(g.b)-1] |= byte(v) << (g.nb & 7)
	g.nb++
}

func (g *gammaWriter) delta(x int) {
	if x == 0 {
		x = 16
	} else if x >= 16 {
		x++
	}
	lg := 0
	for x>>(lg+1) != 0 {
		lg++
	}
	for i := 0; i < lg; i++ {
		g.bit(0)
	}
	g.bit(1)
	for i := 0; i < lg; i++ {
		g.bit(x >> i & 1)
	}
}

func appendPaths(b []byte, paths []string, group int) (out []byte, offs []int) {
	start := len(b)
	last := ""
	for i, p := range paths {
		pre := 0
		if group > 0 && i%group == 0 || i == 0 {
			offs = append(offs, len(b)-start)
		} else {
			for pre < len(p) && pre < len(last) && p[pre] == last[pre] {
				pre++
			}
		}
		b = binary.AppendUvarint(b, uint64(pre))
		b = binary.AppendUvarint(b, uint64(len(p)-pre))
		b = append(b, p[pre:]...)
		last = p
	}
	return b, offs
}

// A tamper changes what the encoder writes for one trigram.
type tamper struct {
	Tri   uint32 // trigram whose entry is affected
	Count int    // added to the recorded count
	List  uint32 // xored into the trigram in front of the list
	Off   int    // added to the recorded offset
	Gap   int    // bytes of padding before every posting list
}

// encodeV2 lays out an index by the documentation.  sentinelEntry says
// whether the posting index gets an entry for the end of the lists.
func encodeV2(x *xindex, sentinelEntry bool, tp *tamper) []byte {
	var b []byte
	var v [8]int
	align := func() {
		for len(b)%16 != 0 {
			b = append(b, 0)
		}
	}
	b = append(b, "csearch index 2\n"...)
	v[0], v[1] = len(b), len(x.Roots)
	b, _ = appendPaths(b, x.Roots, 0)
	align()
	v[2], v[3] = len(b), len(x.Names)
	var offs []int
	b, offs = appendPaths(b, x.Names, 16)
	if len(x.Names) == 0 {
		offs = nil
	}
	align()
	v[4] = len(b)
	var pi []byte
	last := 0
	entry := func(t uint32, count, off int) {
		mk := func(base int) []byte {
			e := []byte{byte(t >> 16), byte(t >> 8), byte(t)}
			e = binary.AppendUvarint(e, uint64(count))
			return binary.AppendUvarint(e, uint64(off-base))
		}
		room := 256 - len(pi)%256
		if room == 256 {
			last = 0
		}
		e := mk(last)
		if len(e) > room {
			for len(pi)%256 != 0 {
				pi = append(pi, 0)
			}
			e = mk(0)
		}
		pi = append(pi, e...)
		last = off
		v[5]++
	}
	for _, t := range sortedTrigrams(x.Post) {
		ids := x.Post[t]
		off := len(b) - v[4]
		count := len(ids)
		lt := t
		if tp != nil && tp.Tri == t {
			count += tp.Count
			lt ^= tp.List
			off += tp.Off
		}
		entry(t, count, off)
		b = append(b, byte(lt>>16), byte(lt>>8), byte(lt))
		var g gammaWriter
		id := -1
		for _, i := range ids {
			g.delta(i - id)
			id = i
		}
		g.delta(0)
		b = append(b, g.b...)
	}
	if sentinelEntry {
		entry(0xffffff, 0, len(b)-v[4])
	}
	b = append(b, 0xff, 0xff, 0xff)
	var g gammaWriter
	g.delta(0)
	b = append(b, g.b...)
	align()
	v[6] = len(b)
	for _, o := range offs {
		b = binary.BigEndian.AppendUint64(b, uint64(o))
	}
	align()
	v[7] = len(b)
	for len(pi)%256 != 0 {
		pi = append(pi, 0)
	}
	b = append(b, pi...)
	for _, n := range v {
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	return append(b, "\ncsearch trlr 2\n"...)
}

// encodeV1 lays out an index in the old 32-bit format.
func encodeV1(x *xindex) []byte {
	var w v1Layout
	w.write(x, [3]int{}, nil)
	return w.b
}

// A v1Layout lays out an index in the old 32-bit format,
// in memory or with holes in a file.
type v1Layout struct {
	b   []byte
	f   *os.File
	off int
}

func (w *v1Layout) put(b []byte) {
	if w.f == nil {
		w.b = append(w.b, b...)
	} else if len(b) > 0 {
		_, err := w.f.WriteAt(b, int64(w.off))
		must(err)
	}
	w.off += len(b)
}

// write lays out x with unused space before the names, the posting lists and the name index,
// and before the posting lists of some trigrams.  It reports whether the result has the format.
func (w *v1Layout) write(x *xindex, skip [3]int, pad map[uint32]int) bool {
	if w.f == nil && (skip != [3]int{} || len(pad) > 0) {
		panic("holes in memory")
	}
	var v [5]int
	w.put([]byte("csearch index 1\n"))
	v[0] = w.off
	var b []byte
	for _, r := range x.Roots {
		b = append(append(b, r...), 0)
	}
	w.put(append(b, 0))
	w.off += skip[0]
	v[1] = w.off
	b = nil
	var offs []byte
	for _, n := range x.Names {
		offs = binary.BigEndian.AppendUint32(offs, uint32(len(b)))
		b = append(append(b, n...), 0)
	}
	offs = binary.BigEndian.AppendUint32(offs, uint32(len(b)))
	w.put(append(b, 0))
	w.off += skip[1]
	v[2] = w.off
	var pi []byte
	list := func(t uint32, ids []int) {
		w.off += pad[t]
		pi = append(pi, byte(t>>16), byte(t>>8), byte(t))
		pi = binary.BigEndian.AppendUint32(pi, uint32(len(ids)))
		pi = binary.BigEndian.AppendUint32(pi, uint32(w.off-v[2]))
		b := []byte{byte(t >> 16), byte(t >> 8), byte(t)}
		id := -1
		for _, i := range ids {
			b = binary.AppendUvarint(b, uint64(i-id))
			id = i
		}
		w.put(append(b, 0))
	}
	for _, t := range sortedTrigrams(x.Post) {
		list(t, x.Post[t])
	}
	list(0xffffff, nil)
	w.off += skip[2]
	v[3] = w.off
	w.put(offs)
	v[4] = w.off
	w.put(pi)
	b = nil
	for _, n := range v {
		if n >= 1<<32 {
			return false
		}
		b = binary.BigEndian.AppendUint32(b, uint32(n))
	}
	w.put(append(b, "\ncsearch trailr\n"...))
	return true
}

func paths(l []string) []index.Path {
	var p []index.Path
	for _, s := range l {
		p = append(p, index.MakePath(s))
	}
	return p
}

// buildIndex indexes files (in path order) under the roots with the real writer.
func buildIndex(file string, roots []string, files []mfile) error {
	roots = append([]string(nil), roots...)
	sort.Slice(roots, func(i, j int) bool { return pathLess(roots[i], roots[j]) })
	files = append([]mfile(nil), files...)
	sort.Slice(files, func(i, j int) bool { return pathLess(string(files[i].Name), string(files[j].Name)) })
	ix := index.Create(file)
	ix.AddRoots(paths(roots))
	for _, f := range files {
		if err := ix.Add(string(f.Name), strings.NewReader(string(f.Text))); err != nil {
			return fmt.Errorf("Add(%q): %v", clip(string(f.Name)), err)
		}
	}
	ix.Flush()
	return nil
}

// tempLeft lists files in the temporary directory.
func tempLeft() []string {
	ents, err := os.ReadDir(os.TempDir())
	must(err)
	var l []string
	for _, e := range ents {
		l = append(l, e.Name())
	}
	return l
}

var _ io.Reader
