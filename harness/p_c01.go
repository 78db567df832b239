package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/index"
	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C01: the query derived from an expression never rejects a file with a matching line.
// C26: literals select exactly the files containing all their trigrams.

type c01Case struct {
	Expr  B
	Files []B
	Seed  int // of further files, drawn from the language of the expression
}

func genExprFiles(t *rapid.T, nfiles int) (string, []string) {
	name := pick(t, alphabetNames, "alphabet")
	alpha := alphabets[name]
	ascii := asciiAlphabet(name)
	var files []string
	var expr string
	if chance(t, 30, "directed") {
		line := genLine(t, alpha, 8)
		files = append(files, line)
		expr = reFromLine(t, line, alpha)
		if chance(t, 20, "foldall") {
			expr = "(?i)" + expr
		}
	} else if chance(t, 30, "wordy") {
		expr = genWordyRE(t, 4)
	} else if chance(t, 25, "alternations") {
		expr = genAltRE(t)
	} else {
		expr = genRE(t, alpha, ascii)
	}
	re, err := syntax.Parse("(?m)"+expr, syntax.Perl)
	n := intn(t, 1, nfiles, "nfiles")
	for len(files) < n {
		if err == nil && chance(t, 80, "sampled") {
			s := genSample(t, re, 200)
			switch intn(t, 0, 5, "wrap") {
			case 3:
				s = genLine(t, alpha, 2) + s + genLine(t, alpha, 2)
			case 4:
				s = genLine(t, alpha, 3) + "\n" + s + "\n"
			case 5:
				s += "\n"
			}
			s = genHead(t, ascii) + s
			files = append(files, s)
		} else {
			files = append(files, genHead(t, ascii)+genText(t, alpha, 3, 6))
		}
	}
	return expr, files
}

func genC01(t *rapid.T) c01Case {
	expr, files := genExprFiles(t, 5)
	c := c01Case{Expr: B(expr), Seed: intn(t, 0, 1<<20, "seed")}
	for _, f := range files {
		c.Files = append(c.Files, B(f))
	}
	return c
}

// usesNoWordBoundary reports whether \B occurs; its meaning between the bytes
// of a non-ASCII character is documented as approximate.
func usesNoWordBoundary(prog *syntax.Prog) bool {
	for _, i := range prog.Inst {
		if i.Op == syntax.InstEmptyWidth && syntax.EmptyOp(i.Arg)&syntax.EmptyNoWordBoundary != 0 {
			return true
		}
	}
	return false
}

func trigramSet(s string) map[string]bool {
	m := map[string]bool{}
	for i := 0; i+3 <= len(s); i++ {
		m[s[i:i+3]] = true
	}
	return m
}

// evalQuery evaluates a query on the trigrams of one file.
func evalQuery(q *index.Query, has map[string]bool) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if !has[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !evalQuery(s, has) {
				return false
			}
		}
		return true
	case index.QOr:
		for _, t := range q.Trigram {
			if has[t] {
				return true
			}
		}
		for _, s := range q.Sub {
			if evalQuery(s, has) {
				return true
			}
		}
		return false
	}
	panic(fmt.Sprintf("unknown query op %v", q.Op))
}

func checkC01(e *Env, c c01Case) Result {
	expr := "(?m)" + string(c.Expr)
	lre, err := compileLineRE(expr)
	if err != nil {
		return Result{Invalid: true}
	}
	noB := usesNoWordBoundary(lre.prog)
	re, err := csre.Compile(expr)
	if err != nil {
		return fail("Compile(%q): %v, but it is a valid RE2 expression", expr, err)
	}
	q := index.RegexpQuery(re.Syntax)
	var r Result
	for _, f := range c.Files {
		text := string(f)
		if !utf8.ValidString(text) || noB && !isASCII(text) {
			continue
		}
		m := lre.matchingLines(text)
		if len(m) == 0 {
			continue
		}
		if q.Op != index.QAll {
			r.Nontrivial = true
		}
		if !evalQuery(q, trigramSet(text)) {
			return fail("expression %q matches line %d of file %q, but the derived query %v rejects the file", expr, m[0]+1, text, q)
		}
	}
	// Strings of the language contain little more than they must.  The matcher is
	// asked only about those that the query rejects.
	if tree, err := syntax.Parse(expr, syntax.Perl); err == nil && q.Op != index.QAll {
		rnd := rand.New(rand.NewSource(int64(c.Seed)))
		for i := 0; i < 24; i++ {
			var b strings.Builder
			sampleRand(rnd, tree, &b, 200)
			text := b.String()
			if evalQuery(q, trigramSet(text)) || !utf8.ValidString(text) || noB && !isASCII(text) {
				continue
			}
			if m := lre.matchingLines(text); len(m) > 0 {
				return fail("expression %q matches line %d of file %q, but the derived query %v rejects the file", expr, m[0]+1, text, q)
			}
		}
	}
	switch q.Op {
	case index.QAll:
		r.label("query:all")
	case index.QNone:
		r.label("query:none")
	case index.QAnd:
		r.label("query:and")
	case index.QOr:
		r.label("query:or")
	}
	if r.Nontrivial {
		r.label("matched+selective")
	}
	return r
}

// Expressions with many alternatives, repetitions and levels.
type c01Big struct {
	Kind string // chain, tree, rep, words, or "" for Big
	N    int
	Seed int64
	Big  c13Big
}

func genC01Big(t *rapid.T) c01Big {
	c := c01Big{Kind: pick(t, []string{"chain", "chain", "tree", "tree", "rep", "words", ""}, "kind")}
	if c.Kind == "" {
		c.Big = genC13Big(t)
		return c
	}
	c.Seed = rapid.Int64().Draw(t, "seed")
	top := pick(t, []int{10, 100, 600}, "scale")
	c.N = intn(t, 1, top, "n")
	return c
}

// expand returns the expression and the texts of c.
func (c c01Big) expand() (string, []string) {
	if c.Kind == "" {
		return c.Big.expand()
	}
	rnd := rand.New(rand.NewSource(c.Seed))
	syl := [][]string{{"ba", "ke", "mo", "x", "foo", "st", "q", "9"}, {"a", "b", "ab"}, {"é", "日", "k", "S", "ba", "𝄞"}, {"abc", "bcd", "cde", "abcd", "d"}}[rnd.Intn(4)]
	word := func(n int) string {
		w := ""
		for j := rnd.Intn(n); j >= 0; j-- {
			w += syl[rnd.Intn(len(syl))]
		}
		return w
	}
	piece := func() string {
		switch rnd.Intn(12) {
		case 0:
			return "(?:" + word(3) + "|" + word(3) + ")"
		case 1:
			return "(?:" + word(2) + ")?"
		case 2:
			return "(?:" + word(2) + ")+"
		case 3:
			return "[" + word(2) + "]"
		case 4:
			return pickRand(rnd, []string{".", ".*", ".*?", "(?:)", `\b`, "(?:" + word(2) + ")*", "(?i:" + word(2) + ")", "^", "$"})
		case 5:
			return "(?:" + word(2) + "|" + word(2) + "|" + word(3) + word(3) + ")"
		case 6:
			return fmt.Sprintf("(?:%s){%d,%d}", word(2), rnd.Intn(3), 2+rnd.Intn(3))
		}
		return word(5)
	}
	var tree func(depth int) string
	tree = func(depth int) string {
		if depth == 0 {
			return piece()
		}
		var l []string
		for i := rnd.Intn(3); i >= 0; i-- {
			l = append(l, tree(depth-1))
		}
		if rnd.Intn(2) == 0 {
			return strings.Join(l, "")
		}
		return "(?:" + strings.Join(l, "|") + ")" + pickRand(rnd, []string{"", "", "", "?", "+", "*", "{2}"})
	}
	var expr string
	switch c.Kind {
	case "chain":
		var b strings.Builder
		for i := 0; i < c.N; i++ {
			b.WriteString(piece())
		}
		expr = b.String()
	case "tree":
		d := 1
		for k := c.N; k > 1; k /= 2 {
			d++
		}
		expr = tree(d)
		for len(expr) > 20000 {
			d--
			expr = tree(d)
		}
	case "rep":
		expr = fmt.Sprintf("%s(?:%s|%s){%d}%s", word(3), word(3), word(4), c.N, word(3))
	case "words":
		var l []string
		for i := 0; i < c.N; i++ {
			l = append(l, word(1+c.N/20%7)+pickRand(rnd, []string{"", "", word(3), "."}))
		}
		expr = strings.Join(l, "|")
		if rnd.Intn(3) == 0 {
			expr = word(2) + "(?:" + expr + ")" + word(2)
		}
	}
	if rnd.Intn(8) == 0 {
		expr = "(?i)" + expr
	}
	re, err := syntax.Parse("(?m)"+expr, syntax.Perl)
	if err != nil {
		return expr, nil
	}
	var texts []string
	for i := 0; i < 4; i++ {
		var b strings.Builder
		sampleRand(rnd, re, &b, 20000)
		texts = append(texts, b.String())
	}
	return expr, texts
}

func checkC01Big(e *Env, c c01Big) Result {
	expr, texts := c.expand()
	cc := c01Case{Expr: B(expr), Seed: int(c.Seed)}
	for _, s := range texts {
		cc.Files = append(cc.Files, B(s), B("-\n"+s))
	}
	r := checkC01(e, cc)
	r.label("%s", c.Kind)
	return r
}

// The index suite: several files, several expressions, a real index.
type c01IndexCase struct {
	Exprs []B
	Files []B
	Brute bool // run csearch, too
}

func genC01Index(t *rapid.T) c01IndexCase {
	var c c01IndexCase
	n := intn(t, 1, 4, "nexpr")
	for i := 0; i < n; i++ {
		expr, files := genExprFiles(t, 6)
		c.Exprs = append(c.Exprs, B(expr))
		for _, f := range files {
			c.Files = append(c.Files, B(f))
		}
	}
	c.Brute = chance(t, 5, "brute")
	return c
}

// indexable mirrors the documented text rule for the small files used here.
func indexable(text string) bool {
	if strings.IndexByte(text, 0) >= 0 || !utf8.ValidString(text) {
		return false
	}
	for _, l := range splitLines(text) {
		if len(l.text) >= 1990 {
			return false
		}
	}
	return true
}

func checkC01Index(e *Env, c c01IndexCase) Result {
	ixFile := filepath.Join(e.Dir, "ix")
	root := filepath.Join(e.Dir, "src")
	ix := index.Create(ixFile)
	ix.AddRoots([]index.Path{index.MakePath(root)})
	var texts []string
	var names []string
	for i, f := range c.Files {
		text := string(f)
		if !indexable(text) {
			continue
		}
		name := fmt.Sprintf("%s/f%03d", root, i)
		if err := ix.Add(name, strings.NewReader(text)); err != nil {
			return fail("Add(%q): %v", text, err)
		}
		if c.Brute {
			writeFile(name, text)
		}
		texts = append(texts, text)
		names = append(names, name)
	}
	ix.Flush()
	rd := index.Open(ixFile)
	var r Result
	for _, ex := range c.Exprs {
		expr := "(?m)" + string(ex)
		lre, err := compileLineRE(expr)
		if err != nil {
			continue
		}
		noB := usesNoWordBoundary(lre.prog)
		re, err := csre.Compile(expr)
		if err != nil {
			return fail("Compile(%q): %v", expr, err)
		}
		q := index.RegexpQuery(re.Syntax)
		post := rd.PostingQuery(q)
		in := map[int]bool{}
		for _, id := range post {
			in[id] = true
		}
		skip := false
		var want strings.Builder
		for id, text := range texts {
			if noB && !isASCII(text) {
				skip = true
				continue
			}
			m := lre.matchingLines(text)
			if len(m) == 0 {
				continue
			}
			if q.Op != index.QAll {
				r.Nontrivial = true
			}
			if !in[id] {
				return fail("expression %q matches line %d of file %q, but query %v selects only %v", expr, m[0]+1, text, q, post)
			}
			lines := splitLines(text)
			for _, i := range m {
				fmt.Fprintf(&want, "%s:%d:%s\n", names[id], i+1, lines[i].text)
			}
		}
		if c.Brute && !skip {
			env := []string{"CSEARCHINDEX=" + ixFile}
			for _, brute := range []bool{false, true} {
				args := []string{e.tool("csearch"), "-n"}
				if brute {
					args = append(args, "-brute")
				}
				args = append(args, "--", string(ex))
				p := e.run(runOpt{env: env}, args...)
				if string(p.Out) != want.String() {
					return fail("csearch %q: stdout %q, want %q (%v)", args[1:], p.Out, want.String(), p)
				}
			}
			r.label("csearch")
		}
	}
	return r
}

func init() {
	rules["C01"] = "expressions from an RE2 grammar (or derived from a line), files sampled from the expression's language or token soup; expressions of hundreds to tens of thousands of parts (chains, alternations, repetitions); non-trivial: some file matches and the derived query is not ALL"
	assumptions["C01"] = []string{"oracle: rune-level NFA over Go's regexp/syntax programs, line by line", "files are valid UTF-8; \\B only on ASCII texts"}
	reg("C01", "query", opts{noDir: true, quick: 240000, thorough: 12000000, recycle: 100000}, genC01, checkC01,
		c01Case{Expr: "aa(b(a[ab]?|baaa))", Files: []B{"aabbaaa"}})
	reg("C01", "big", opts{noDir: true, quick: 24000, thorough: 250000, recycle: 2000}, genC01Big, checkC01Big,
		c01Big{Kind: "words", N: 20000, Seed: 1}, c01Big{Kind: "chain", N: 8000, Seed: 2}, c01Big{Kind: "rep", N: 1000, Seed: 3}, c01Big{Big: c13Big{Kind: "words", N: 3000, Seed: 2, Fold: true}})
	reg("C01", "index", opts{quick: 8000, thorough: 300000, recycle: 200, gcOff: true}, genC01Index, checkC01Index)
}
