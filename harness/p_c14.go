package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp/syntax"
	"strings"
	"sync"

	"github.com/google/codesearch/index"
	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C14: matching does not depend on history or company.

type c14Text struct {
	T    B
	Seed int    `json:",omitempty"` // with N: N pseudo-random characters of T
	N    int    `json:",omitempty"`
	Post string `json:",omitempty"`
}

func (x c14Text) text() string {
	if x.N == 0 || x.T == "" {
		return string(x.T) + x.Post
	}
	rnd := rand.New(rand.NewSource(int64(x.Seed)))
	b := make([]byte, min(x.N, 1<<20))
	for i := range b {
		b[i] = x.T[rnd.Intn(len(x.T))]
	}
	return string(b) + x.Post
}

type c14Op struct {
	K          string `json:",omitempty"` // "" (match), grep, compile, query
	R, T       int
	Begin, End bool `json:",omitempty"`
	Str        bool `json:",omitempty"`
	Flags      int  `json:",omitempty"` // grep: bits l, c, n, h, v, context
}

type c14Case struct {
	Exprs []B
	Texts []c14Text
	Ops   []c14Op
	Par   int `json:",omitempty"` // concurrent users, each with expressions of its own
}

func genC14Exprs(t *rapid.T, alpha []string) []B {
	var l []B
	for n := intn(t, 1, 4, "nexprs"); n > 0; n-- {
		var x string
		switch intn(t, 0, 9, "exprkind") {
		case 0, 1:
			// As many states as there are subsets.
			k := intn(t, 2, 11, "window")
			x = pick(t, []string{"a[ab]{%d}b", "a[^c\n]{%d}$", "^[ab]*a[ab]{%d}c", `\ba[ab]{%d}\b`, "(?i)a[A-B]{%d}c", "a.{%d}b"}, "window")
			x = fmt.Sprintf(x, k)
		case 2:
			x = reFromLine(t, genLine(t, alpha, 6), alpha)
		default:
			x = genRE(t, alpha, false)
		}
		if chance(t, 50, "multi") {
			x = "(?m)" + x
		}
		l = append(l, B(x))
	}
	return l
}

func genC14(t *rapid.T, par bool) c14Case {
	var c c14Case
	alpha := alphabets[pick(t, alphabetNames, "alphabet")]
	c.Exprs = genC14Exprs(t, alpha)
	for n := intn(t, 2, 8, "ntexts"); n > 0; n-- {
		var x c14Text
		switch intn(t, 0, 9, "textkind") {
		case 0:
			x = c14Text{T: B(pick(t, []string{"ab", "aabb\n", "abc", "ab \n", "aB\xc3\xa9"}, "chars")), Seed: intn(t, 0, 1<<20, "seed"), N: intn(t, 1, 4000, "n")}
		case 1:
			x.T = B(genText(t, alpha, 3, 5) + pick(t, []string{"\xff", "\x80", "\xe2\x82", "\x00", "\r"}, "odd") + genText(t, alpha, 2, 3))
		case 2, 3, 4:
			if re, err := syntax.Parse(string(pick(t, c.Exprs, "target")), syntax.Perl); err == nil {
				x.T = B(genLine(t, alpha, 2) + genSample(t, re, 100) + pick(t, []string{"", "\n", "a", "\nb"}, "after"))
			}
		default:
			x.T = B(genText(t, alpha, 4, 5))
		}
		c.Texts = append(c.Texts, x)
	}
	for n := intn(t, 4, 40, "nops"); n > 0; n-- {
		op := c14Op{R: intn(t, 0, len(c.Exprs)-1, "re"), T: intn(t, 0, len(c.Texts)-1, "text"), Begin: !chance(t, 40, "nobegin"), End: !chance(t, 40, "noend"), Str: chance(t, 40, "str")}
		switch intn(t, 0, 11, "kind") {
		case 0:
			op.K = "compile"
		case 1:
			op.K = "query"
		case 2, 3:
			op.K, op.Flags = "grep", intn(t, 0, 63, "flags")
		}
		c.Ops = append(c.Ops, op)
	}
	if par {
		c.Par = intn(t, 2, 6, "par")
		if len(c.Ops) > 16 {
			c.Ops = c.Ops[:16]
		}
	}
	return c
}

// do performs one operation and returns what it gave.
func (op c14Op) do(re *csre.Regexp, text string) string {
	switch op.K {
	case "":
		if op.Str {
			return fmt.Sprint(re.MatchString(text, op.Begin, op.End))
		}
		return fmt.Sprint(re.Match([]byte(text), op.Begin, op.End))
	case "query":
		return index.RegexpQuery(re.Syntax).String()
	case "compile":
		x, err := csre.Compile("(?i)" + re.String())
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(x.Match([]byte(text), op.Begin, op.End))
	case "grep":
		var out, errs bytes.Buffer
		g := csre.Grep{Regexp: re, Stdout: &out, Stderr: &errs, L: op.Flags&1 != 0, C: op.Flags&2 != 0, N: op.Flags&4 != 0, H: op.Flags&8 != 0, V: op.Flags&16 != 0}
		if op.Flags&32 != 0 {
			g.PreContext, g.PostContext = 1, 2
		}
		g.Reader(strings.NewReader(text), "file")
		return fmt.Sprintf("%v %d %s %s", g.Match, g.Matches, out.String(), errs.String())
	}
	infra("unknown operation %q", op.K)
	return ""
}

func (c *c14Case) valid() bool {
	for _, op := range c.Ops {
		if op.R < 0 || op.R >= len(c.Exprs) || op.T < 0 || op.T >= len(c.Texts) {
			return false
		}
	}
	return true
}

// fresh gives the results of the operations, each with an expression compiled for it.
func (c *c14Case) fresh(texts []string) (want []string, bad string) {
	for _, op := range c.Ops {
		re, err := csre.Compile(string(c.Exprs[op.R]))
		if err != nil {
			return nil, "invalid"
		}
		w := op.do(re, texts[op.T])
		if op.K == "" {
			// The other form, on an equally fresh one.
			re2, _ := csre.Compile(string(c.Exprs[op.R]))
			op2 := op
			op2.Str = !op.Str
			if w2 := op2.do(re2, texts[op.T]); w2 != w {
				return nil, fmt.Sprintf("%q on %q (begin=%v end=%v): %s with string=%v, %s with string=%v", c.Exprs[op.R], clip(texts[op.T]), op.Begin, op.End, w, op.Str, w2, op2.Str)
			}
		}
		want = append(want, w)
	}
	return want, ""
}

func (c *c14Case) texts() []string {
	var l []string
	for _, x := range c.Texts {
		l = append(l, x.text())
	}
	return l
}

func checkC14(e *Env, c c14Case) Result {
	if !c.valid() {
		return Result{Invalid: true}
	}
	var r Result
	texts := c.texts()
	want, bad := c.fresh(texts)
	if bad == "invalid" {
		return Result{Invalid: true}
	}
	if bad != "" {
		return fail("%s", bad)
	}
	var res []*csre.Regexp
	for _, x := range c.Exprs {
		re, err := csre.Compile(string(x))
		if err != nil {
			return Result{Invalid: true}
		}
		res = append(res, re)
	}
	uses := map[int]map[int]bool{}
	hit, miss := false, false
	for round := 0; round < 2; round++ {
		for i, op := range c.Ops {
			text := texts[op.T]
			if got := op.do(res[op.R], text); got != want[i] {
				return fail("%s %q on %q (begin=%v end=%v string=%v), after other uses (round %d, operation %d): %q; with a fresh expression: %q", op.K, c.Exprs[op.R], clip(text), op.Begin, op.End, op.Str, round, i, clip(got), clip(want[i]))
			}
			if text != texts[op.T] {
				return fail("text changed")
			}
			if uses[op.R] == nil {
				uses[op.R] = map[int]bool{}
			}
			uses[op.R][op.T] = true
			if op.K == "" {
				if want[i] == "-1" {
					miss = true
				} else {
					hit = true
				}
			}
		}
	}
	for _, m := range uses {
		if len(m) >= 2 && hit && miss {
			r.Nontrivial = true
		}
	}
	for _, x := range c.Texts {
		if x.N > 1000 {
			r.label("long text")
			break
		}
	}
	return r
}

func checkC14Par(e *Env, c c14Case) Result {
	if !c.valid() || c.Par < 1 || c.Par > 16 {
		return Result{Invalid: true}
	}
	var r Result
	texts := c.texts()
	for _, x := range c.Exprs {
		if _, err := csre.Compile(string(x)); err != nil {
			return Result{Invalid: true}
		}
	}
	// Two indexes with the texts as files.
	var names []string
	var files [2][]mfile
	for i, x := range texts {
		n := fmt.Sprintf("/r/f%02d", i)
		names = append(names, n)
		files[i%2] = append(files[i%2], mfile{B(n), B(x)})
		if i%3 == 0 {
			files[1-i%2] = append(files[1-i%2], mfile{B(n), B(x)})
		}
	}
	ixFile := [2]string{e.Dir + "/i0", e.Dir + "/i1"}
	for i := range ixFile {
		if err := buildIndex(ixFile[i], []string{"/r"}, files[i]); err != nil {
			return Result{Invalid: true}
		}
	}
	// user does everything with expressions and index handles of its own.
	user := func(who int) []string {
		var got []string
		var res []*csre.Regexp
		for _, x := range c.Exprs {
			re, _ := csre.Compile(string(x))
			res = append(res, re)
		}
		ix := [2]*index.Index{index.Open(ixFile[0]), index.Open(ixFile[1])}
		defer ix[0].Close()
		defer ix[1].Close()
		for i, op := range c.Ops {
			got = append(got, op.do(res[op.R], texts[op.T]))
			k := (i + op.T) % 2
			q := index.RegexpQuery(res[op.R].Syntax)
			s := ""
			for _, id := range ix[k].PostingQuery(q) {
				n := ix[k].Name(id).String()
				s += n + " "
				for j := range names {
					if names[j] == n {
						s += op.do(res[op.R], texts[j])
					}
				}
			}
			got = append(got, s)
		}
		return got
	}
	// At the same time first, when nothing has been computed yet.
	got := make([][]string, c.Par)
	crash := make([]string, c.Par)
	var wg sync.WaitGroup
	for g := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			crash[g] = catch(func() { got[g] = user(g) })
		}()
	}
	wg.Wait()
	want := user(0)
	alone, bad := c.fresh(texts)
	if bad != "" {
		return fail("%s", bad)
	}
	for i := range alone {
		if want[2*i] != alone[i] {
			return fail("operation %d: %q, with a fresh expression %q", i, clip(want[2*i]), clip(alone[i]))
		}
	}
	for g := range got {
		if crash[g] != "" {
			return fail("user %d of %d concurrent ones: %s", g, c.Par, crash[g])
		}
		for i := range want {
			if got[g][i] != want[i] {
				return fail("user %d of %d concurrent ones, operation %d: %q, alone %q", g, c.Par, i/2, clip(got[g][i]), clip(want[i]))
			}
		}
	}
	again := user(0)
	for i := range want {
		if again[i] != want[i] {
			return fail("afterwards, operation %d: %q, before %q", i/2, clip(again[i]), clip(want[i]))
		}
	}
	r.Nontrivial = strings.Contains(strings.Join(want, ""), "/r/f")
	r.label("users %d", c.Par)
	return r
}

func init() {
	rules["C14"] = "1-4 expressions (some with exponentially many matcher states) and 2-8 texts (up to 4000 random characters, also invalid UTF-8); up to 40 operations (Match, MatchString, Grep with various flags, trigram queries, compiling others in between) in two rounds on shared expressions, each compared with a freshly compiled expression; and 2-6 concurrent users with expressions and index handles of their own, under the race detector, compared with the same operations alone; non-trivial: an expression used on several texts, with and without matches; concurrently: a query selected a file"
	assumptions["C14"] = []string{"one Regexp is not used by several goroutines (documented)"}
	win := func(k int) c14Case {
		c := c14Case{Exprs: []B{B(fmt.Sprintf("(?m)a[ab]{%d}c", k)), B(fmt.Sprintf(`(?m)^[ab]*a[ab]{%d}\bb`, k))}, Texts: []c14Text{{T: "ab", N: 30000, Seed: 1}, {T: "ab", N: 30000, Seed: 2, Post: "c\n"}, {T: "ab\n", N: 20000, Seed: 3, Post: "\nabab c"}, {T: "abbbabababbbabababbaaaac"}}}
		for i := 0; i < 16; i++ {
			c.Ops = append(c.Ops, c14Op{R: i / 4 % 2, T: i % 4, Begin: i%3 != 0, End: i%2 == 0, Str: i&4 != 0})
		}
		return c
	}
	reg("C14", "history", opts{noDir: true, quick: 7000, thorough: 500000, recycle: 2000}, func(t *rapid.T) c14Case { return genC14(t, false) }, checkC14,
		win(8), win(11), win(13), win(14))
	reg("C14", "users", opts{quick: 1200, thorough: 40000, recycle: 200, race: true, gcOff: false}, func(t *rapid.T) c14Case { return genC14(t, true) }, checkC14Par)
}
