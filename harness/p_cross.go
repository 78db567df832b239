package main

import (
	"fmt"
	"path/filepath"

	"github.com/google/codesearch/index"
	"pgregory.net/rapid"
)

// Suites that decide a property through another part of the program than its main suites:
// the commands for properties of the packages, indexes of other origin for properties of reading.

// genTools is genC22 with the flags f.
func genTools(f func(*rapid.T) toolFlags) func(*rapid.T) c22Case {
	return func(t *rapid.T) c22Case {
		c := genC22V(t, 0)
		c.Flags = f(t)
		return c
	}
}

func genContextFlags(t *rapid.T) toolFlags {
	f := toolFlags{N: chance(t, 40, "n"), H: chance(t, 25, "h"), I: chance(t, 10, "i")}
	n := func(label string) int {
		if chance(t, 20, "much") {
			return intn(t, 1, 60, label)
		}
		return intn(t, 1, 4, label)
	}
	switch intn(t, 0, 4, "ctxkind") {
	case 0:
		f.A = n("A")
	case 1:
		f.B = n("B")
	case 2:
		f.A, f.B = n("A"), n("B")
	case 3:
		f.Ctx, f.A = n("C"), n("A")
	default:
		f.Ctx = n("C")
	}
	return f
}

func genC21Context(t *rapid.T) c21Case {
	c := genC21(t)
	for i := range c.Exprs {
		c.Exprs[i].Flags = genContextFlags(t)
	}
	return c
}

// C02: indexes of other origin.

type c02Other struct {
	C    c02Case
	Kind int // 0: laid out by the documentation; 1: version 1; 2, 3: merged, the files divided at Cut, one side being old
	Cut  int
	Many int // further files, in bulk
}

func genC02Other(t *rapid.T) c02Other {
	c := c02Other{C: genC02(t), Kind: intn(t, 0, 3, "kind"), Cut: intn(t, 0, 60, "cut")}
	if c.Kind < 2 && chance(t, 20, "many") {
		c.Many = intn(t, 1, 5000, "nmany")
	}
	return c
}

func checkC02Other(e *Env, c c02Other) Result {
	if c.Many > 100000 {
		return Result{Invalid: true}
	}
	files := append([]mfile(nil), c.C.Files...)
	for i := 0; i < c.Many; i++ {
		h := splitmix(uint64(i))
		b := make([]byte, h%16)
		for j := range b {
			h = splitmix(h)
			b[j] = "abc"[h%3]
		}
		files = append(files, mfile{B(fmt.Sprintf("/s/%06d", i)), B(b)})
	}
	x := modelIndex([]string{"/r", "/s"}, files)
	file := filepath.Join(e.Dir, "ix")
	switch c.Kind {
	case 0:
		writeFile(file, string(encodeV2(x, true, nil)))
	case 1:
		writeFile(file, string(encodeV1(x)))
	case 2, 3:
		cut := min(c.Cut, len(files))
		var old, new mstate
		old.files, new.files = map[string]string{}, map[string]string{}
		a, b := &old, &new
		if c.Kind == 3 {
			a, b = b, a
		}
		// Every file is a root, so that any division is possible.
		for i, f := range files {
			m := b
			if i < cut {
				m = a
			}
			m.files[string(f.Name)] = string(f.Text)
			m.roots = append(m.roots, string(f.Name))
		}
		must(makeSource(file+"1", &old))
		must(makeSource(file+"2", &new))
		index.Merge(file, file+"1", file+"2")
	default:
		return Result{Invalid: true}
	}
	c.C.Files = files
	r := queryIndex(e, file, c.C)
	r.label("%s", []string{"documented layout", "version 1", "merged", "merged"}[c.Kind])
	if len(files) > 1000 {
		r.label("more than 1000 files")
	}
	return r
}

// C10: every index that comes out of indexing or merging is accepted.

func checkC10Written(e *Env, c c03Case) Result {
	var files []mfile
	for _, f := range dedupe(c.files()) {
		if textVerdict(string(f.Text)) == textYes {
			files = append(files, f)
		}
	}
	file := filepath.Join(e.Dir, "ix")
	if c.Spill > 0 {
		old := setSpillLimit(c.Spill)
		defer setSpillLimit(old)
	}
	if err := buildIndex(file, c.roots(), files); err != nil {
		return fail("%v", err)
	}
	var cerr error
	if msg := catch(func() { cerr = index.Open(file).Check() }); msg != "" || cerr != nil {
		return fail("Check of a new index of %d files: %v %s", len(files), cerr, msg)
	}
	p := e.run(runOpt{env: []string{"CSEARCHINDEX=" + file}}, e.tool("cindex"), "-list", "-check")
	if p.Code != 0 {
		return fail("cindex -list -check of a new index of %d files: %v", len(files), p)
	}
	return Result{Nontrivial: len(files) > 1}
}

// genC10History is a history of cindex -check runs.
func genC10History(t *rapid.T) c07Case {
	c := genC07(t)
	for i := range c.Ops {
		switch c.Ops[i].K {
		case "cindex", "reindex", "resetadd":
			c.Ops[i].Opt = []B{"-check"}
		}
	}
	return c
}

// genC09History is a history in which the index is put into the version 1 format now and then.
func genC09History(t *rapid.T) c07Case {
	c := genC07(t)
	var ops []c07Op
	for _, o := range c.Ops {
		ops = append(ops, o)
		switch o.K {
		case "cindex", "reindex", "resetadd":
			if chance(t, 60, "old") {
				ops = append(ops, c07Op{K: "old"})
			}
		}
	}
	c.Ops = ops
	return c
}

func init() {
	reg("C01", "csearch", opts{quick: 3000, thorough: 100000, recycle: 2000}, genC21, checkC21)
	reg("C02", "other", opts{quick: 6000, thorough: 300000, recycle: 300, gcOff: true}, genC02Other, checkC02Other,
		c02Other{Kind: 0, Many: 70000, C: c02Case{Files: []mfile{{"/r/1", "abcab"}}, Queries: []c02Query{{Op: int(index.QAnd), Tri: []B{"abc", "bca"}}, {Op: int(index.QOr), Tri: []B{"aaa", "abc", "bbb"}}}}},
		c02Other{Kind: 1, Many: 70000, C: c02Case{Files: []mfile{{"/r/1", "abcab"}}, Queries: []c02Query{{Op: int(index.QAnd), Tri: []B{"abc", "bca"}}, {Op: int(index.QOr), Tri: []B{"aaa", "abc", "bbb"}}}}})
	reg("C04", "cindex", opts{quick: 1500, thorough: 50000, recycle: 1500}, genC23, checkC23)
	reg("C06", "cindex", opts{quick: 1500, thorough: 50000, recycle: 1000}, genC07, checkC07)
	reg("C09", "cindex", opts{quick: 1500, thorough: 50000, recycle: 1000}, genC09History, checkC07)
	reg("C10", "written", opts{quick: 3000, thorough: 100000, recycle: 300, gcOff: true}, genC03, checkC10Written)
	reg("C10", "big", opts{quick: 200, thorough: 6000, recycle: 30}, genC03Big, checkC10Written)
	reg("C10", "merged", opts{quick: 3000, thorough: 100000, recycle: 150, gcOff: true}, genC09Merge, checkC09Merge)
	reg("C10", "cindex", opts{quick: 700, thorough: 30000, recycle: 1000}, genC10History, checkC07)
	reg("C15", "cgrep", opts{quick: 5000, thorough: 250000, recycle: 5000}, func(t *rapid.T) c22Case { return genC22V(t, 0) }, checkC22)
	reg("C17", "cgrep", opts{quick: 5000, thorough: 250000, recycle: 5000}, genTools(genContextFlags), checkC22)
	reg("C17", "csearch", opts{quick: 1500, thorough: 50000, recycle: 2000}, genC21Context, checkC21)
	reg("C21", "zip", opts{quick: 2000, thorough: 60000, recycle: 1000}, genC24, checkC24)
	limit := func(n int) webCase {
		return webCase{Tree: []tnode{{P: "a", K: "file", T: "a\nb\n", Big: 50000}, {P: "b", K: "file", T: "x\na\na\n", Big: n}, {P: "c", K: "file", T: "b\n"}}, Queries: []webQuery{{K: "search", Q: "a$"}}}
	}
	reg("C18", "web", opts{netns: true}, nil, checkC20, limit(24999), limit(25000), limit(25001), limit(30000))
}
