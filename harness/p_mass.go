package main

import (
	"fmt"
	"sort"

	"pgregory.net/rapid"
)

// Indexes and merges of very many files and roots: ids, counts, lists and
// offsets that need more bytes than usual.

func genMassN(t *rapid.T, log int) int {
	n := 1 << intn(t, 8, log, "mass")
	return n + intn(t, -2, n/8, "massoff")
}

func genC03Mass(t *rapid.T) c03Case {
	c := c03Case{Roots: []B{"/many"}, Many: genMassN(t, massLog), Pre: genDeep(t, 300)}
	if chance(t, 40, "roots") {
		c.NRoot = genMassN(t, massLog)
		if chance(t, 50, "few") {
			c.Many %= 100
		}
	}
	if chance(t, 50, "spill") {
		c.Spill = c.Many + intn(t, 0, 20*c.Many, "spillat")
	}
	for n := intn(t, 0, 3, "nranges"); n > 0; n-- {
		lo := intn(t, 0, c.Many, "lo")
		c.Ranges = append(c.Ranges, [2]int{lo, lo + intn(t, 0, 400, "len")})
	}
	return c
}

// massLog bounds the binary logarithm of the number of files.
var massLog = 16 // 18 when thorough

// genMassSrc makes a source with many roots, few of them shared with others,
// and many files.
func genMassSrc(t *rapid.T) mergeSrc {
	var s mergeSrc
	step := intn(t, 1, 9, "rootstep")
	off := intn(t, 0, 8, "rootoff")
	for i := intn(t, 1, 50, "massroots"); i > 0; i-- {
		r := fmt.Sprintf("/p%03d", off+i*step)
		switch splitmix(uint64(off*1000+i)) % 7 {
		case 0:
			r += "/q"
		case 1:
			r += ".x"
		}
		s.Roots = append(s.Roots, B(r))
	}
	sort.Slice(s.Roots, func(i, j int) bool { return pathLess(string(s.Roots[i]), string(s.Roots[j])) })
	s.Many = genMassN(t, massLog)
	if chance(t, 40, "manyroots") {
		s.NRoot, s.Step = genMassN(t, massLog), intn(t, 1, 3, "step")
	}
	if chance(t, 20, "few") {
		s.Many %= 100
	}
	return s
}

func genC06Mass(t *rapid.T) c06Case {
	c := c06Case{Srcs: []mergeSrc{genMassSrc(t), genMassSrc(t)}, Steps: []mergeStep{{0, 1}}}
	if chance(t, 50, "again") {
		c.Srcs = append(c.Srcs, genMassSrc(t))
		c.Steps = append(c.Steps, mergeStep{3, 2})
	}
	pre := genDeep(t, 300)
	for i := range c.Srcs {
		c.Srcs[i].Pre = pre
	}
	return c
}

func genC09Mass(t *rapid.T) c06Case {
	c := genC06Mass(t)
	for i := range c.Srcs {
		c.Srcs[i].V1 = chance(t, 60, "v1")
	}
	return c
}

// csearch with an index of very many files, few of which exist (any longer).

type c21Mass struct {
	Many  int
	Keep  []int // numbers of files that exist
	Bare  bool  // few lines
	Exprs []c21Query
}

func genC21Mass(t *rapid.T) c21Mass {
	c := c21Mass{Many: genMassN(t, massLog+1), Bare: chance(t, 30, "bare")}
	for n := intn(t, 1, 30, "nkeep"); n > 0; n-- {
		i := intn(t, 0, c.Many-1, "keep")
		if chance(t, 30, "last") {
			i = c.Many - 1 - i%10
		}
		if chance(t, 30, "edge") {
			i = min(c.Many-1, 1<<intn(t, 5, 17, "edgelog")+intn(t, -2, 1, "edgeoff"))
		}
		c.Keep = append(c.Keep, i)
	}
	for n := intn(t, 1, 4, "nqueries"); n > 0; n-- {
		q := c21Query{Flags: genToolFlags(t), Brute: chance(t, 30, "brute")}
		q.Expr = B(pick(t, []string{"alpha", "line$", "^[a-c]", "be?ta|gamma", "", "zzzz", "7 7", "no\\.\\d*5$"}, "expr"))
		if chance(t, 40, "f") {
			q.F = B(pick(t, []string{"/d1/", "5$", "f0*[1-9]$", "zzz", "[0-3][0-9]$", "(?i)/D[2-4]/F"}, "f"))
		}
		c.Exprs = append(c.Exprs, q)
	}
	return c
}

func checkC21Mass(e *Env, c c21Mass) Result {
	var r Result
	if c.Many < 1 || c.Many > 1<<19 {
		return Result{Invalid: true}
	}
	w := newWorld(e, "w")
	var files []mfile
	name := func(i int) string { return fmt.Sprintf("%s/d%d/f%06d", w.root, i%5, i) }
	text := func(i int) string {
		s := fmt.Sprintf("%s no.%d\n", []string{"alpha", "beta", "gamma", "cee"}[i%4], i)
		if !c.Bare {
			s += fmt.Sprintf("%d %d\na second line\n", i%10, i%10)
		}
		return s
	}
	for i := range c.Many {
		files = append(files, mfile{B(name(i)), B(text(i))})
	}
	if err := buildIndex(w.index, []string{w.root}, files); err != nil {
		return fail("%v", err)
	}
	have := map[string]string{}
	for _, i := range c.Keep {
		if i < 0 || i >= c.Many {
			return Result{Invalid: true}
		}
		writeFile(name(i), text(i))
		have[name(i)] = text(i)
	}
	for _, q := range c.Exprs {
		pat := q.Flags.pattern(string(q.Expr))
		lre, err := compileLineRE(pat)
		var fre *lineRE
		args := q.Flags.args(e)
		if err == nil && q.F != "" {
			fre, err = compileLineRE(string(q.F))
			args = append(args, "-f", string(q.F))
		}
		if err != nil {
			return Result{Invalid: true}
		}
		if q.Brute {
			args = append(args, "-brute")
		}
		p := w.run("csearch", append(args, "--", string(q.Expr))...)
		m := &grepModel{f: q.Flags.model(), re: lre, expr: pat}
		for _, n := range sortedNames(have) {
			if fre == nil || fre.firstMatch(n, true, true) >= 0 {
				m.file(n, have[n])
			}
		}
		if d := m.out.diff(string(p.Out)); d != "" {
			return fail("csearch %q with %d files in the index: %s (%v)", args, c.Many, d, p)
		}
		if want := map[bool]int{true: 0, false: 1}[m.match]; p.Code != want {
			return fail("csearch %q with %d files in the index: %v, want exit %d", args, c.Many, p, want)
		}
		r.Nontrivial = r.Nontrivial || m.match
	}
	r.label("files:%s", bucket(c.Many))
	return r
}

func init() {
	massQ, massT := 24, 2000
	reg("C03", "mass", opts{quick: massQ, thorough: massT, recycle: 4}, genC03Mass, checkC03, c03Case{Roots: []B{"/many"}, Many: 70000}, c03Case{Roots: []B{"/many"}, Many: 1<<15 + 1, Spill: 1 << 16})
	reg("C06", "mass", opts{quick: massQ, thorough: massT, recycle: 4}, genC06Mass, checkC06,
		c06Case{Srcs: []mergeSrc{{Roots: []B{"/a"}, Many: 66500}, {Roots: []B{"/b"}, Many: 10}}, Steps: []mergeStep{{0, 1}}},
		c06Case{Srcs: []mergeSrc{{Roots: []B{"/a", "/c"}, Many: 40000}, {Roots: []B{"/b"}, Many: 20000}}, Steps: []mergeStep{{0, 1}}})
	reg("C06", "massroots", opts{quick: 0, thorough: 0}, genC06Mass, checkC06,
		c06Case{Srcs: []mergeSrc{{NRoot: 66500, Many: 1000}, {NRoot: 33000, Step: 3, Many: 1000}}, Steps: []mergeStep{{0, 1}, {1, 0}}},
		c06Case{Srcs: []mergeSrc{{NRoot: 5000, Many: 20000}, {Roots: []B{"/r"}, Many: 100}, {Roots: []B{"/r/000007"}, Many: 10}}, Steps: []mergeStep{{0, 1}, {0, 2}, {2, 0}}})
	reg("C08", "mass", opts{quick: massQ, thorough: massT, recycle: 4}, genC03Mass, checkC08Written, c03Case{Roots: []B{"/many"}, Many: 70000})
	reg("C09", "mass", opts{quick: massQ, thorough: massT, recycle: 4}, genC09Mass, checkC09Merge,
		c06Case{Srcs: []mergeSrc{{Roots: []B{"/a"}, Many: 66500, V1: true}, {Roots: []B{"/b"}, Many: 10}}, Steps: []mergeStep{{0, 1}}})
	reg("C21", "mass", opts{quick: 120, thorough: 5000, recycle: 20}, genC21Mass, checkC21Mass,
		c21Mass{Many: 140000, Keep: []int{0, 1, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 139999}, Exprs: []c21Query{{}, {Expr: "alpha"}, {Expr: "second", Flags: toolFlags{L: true}, Brute: true}, {Expr: "line", F: "5$"}}})
	reg("C10", "mass", opts{quick: massQ, thorough: massT, recycle: 4}, genC03Mass, checkC10Written, c03Case{Roots: []B{"/many"}, Many: 70000})
}
