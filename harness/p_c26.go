package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/index"
	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C26: literals select exactly the files with all their trigrams.

type c26Case struct {
	Lits  []B
	Quote int // how literals are written
	Wrap  int
	Files []B
	Never bool `json:",omitempty"` // an expression that cannot match, built around the literals
}

var litAlphas = [][]string{
	{"a", "b"},
	{"a", "b", "c", "d", "e", "f", "g", "h"},
	{"a", "A", "k", "K", "s", "1", "_", " ", "\t"},
	{"é", "日", "本", "𝄞", "ſ", "a", "\x7f"},
	{".", "*", "+", "(", ")", "[", "]", "|", "\\", "^", "$", "{", "}", "?", "x"},
	{"foo", "bar", "foobar", "ba", "z", "0"},
}

func genLit(t *rapid.T, alpha []string) string {
	var b strings.Builder
	n := intn(t, 1, 8, "litlen")
	if chance(t, 8, "longlit") {
		n = intn(t, 9, 60, "litlen2")
		if chance(t, 15, "hugelit") {
			rnd := rand.New(rand.NewSource(int64(intn(t, 0, 1<<20, "litseed"))))
			for i := intn(t, 60, pick(t, []int{300, 1500, 6000}, "scale"), "litlen3"); i > 0; i-- {
				b.WriteString(pickRand(rnd, alpha))
			}
			return b.String() + "abc"
		}
	}
	for i := 0; i < n || b.Len() < 3; i++ {
		b.WriteString(pick(t, alpha, "litchar"))
	}
	return b.String()
}

func genC26(t *rapid.T) c26Case {
	var c c26Case
	alpha := pick(t, litAlphas, "alpha")
	n := 1
	if chance(t, 50, "alternation") {
		n = intn(t, 2, 12, "nlits")
	}
	var lits []string
	for i := 0; i < n; i++ {
		l := genLit(t, alpha)
		if len(lits) > 0 && chance(t, 40, "related") {
			p := pick(t, lits, "base")
			k := intn(t, 0, len(p), "cut")
			for !utf8.RuneStart((p + "a")[k]) {
				k--
			}
			if chance(t, 50, "prefix") {
				l = p[:k] + l
			} else {
				l += p[k:]
			}
		}
		lits = append(lits, l)
		c.Lits = append(c.Lits, B(l))
	}
	c.Quote, c.Wrap = intn(t, 0, 3, "quote"), intn(t, 0, 5, "wrap")
	for k := intn(t, 1, 8, "nfiles"); k > 0; k-- {
		l := pick(t, lits, "of")
		var f string
		switch intn(t, 0, 6, "filekind") {
		case 0:
			f = genText(t, alpha, 3, 4)
		case 1:
			f = genLine(t, alpha, 2) + l + genLine(t, alpha, 2)
		case 2: // all trigrams, apart
			for i := 0; i+3 <= len(l); i++ {
				f = l[i:i+3] + pick(t, []string{"\n", "#", ""}, "sep") + f
			}
		case 3: // all trigrams but one
			skip := intn(t, 0, len(l)-3, "skip")
			for i := 0; i+3 <= len(l); i++ {
				if i != skip {
					f += l[i:i+3] + "\n"
				}
			}
		case 4: // overlapping parts
			i := intn(t, 0, len(l), "part")
			f = l[min(len(l), max(0, i-intn(t, 0, 3, "overlap"))):] + pick(t, []string{"\n", " ", "~"}, "sep") + l[:i]
		case 5: // parts of different ones
			m := pick(t, lits, "other")
			f = l[:intn(t, 0, len(l), "p1")] + m[intn(t, 0, len(m), "p2"):]
		case 6:
			f = l[:len(l)-1] + "\n" + l[1:]
		}
		c.Files = append(c.Files, B(f))
	}
	c.Never = chance(t, 12, "never")
	return c
}

func (c *c26Case) expr() string {
	var l []string
	for i, x := range c.Lits {
		s := string(x)
		switch c.Quote {
		case 1:
			if !strings.Contains(s, `\E`) && !strings.HasSuffix(s, `\`) {
				s = `\Q` + s + `\E`
				break
			}
			s = quoteRE(s)
		case 2:
			var b strings.Builder
			for _, r := range s {
				fmt.Fprintf(&b, `\x{%X}`, r)
			}
			s = b.String()
		default:
			s = quoteRE(s)
		}
		if c.Quote == 3 && i%2 == 1 {
			s = "(" + s + ")"
		}
		l = append(l, s)
	}
	x := strings.Join(l, "|")
	switch c.Wrap {
	case 1:
		x = "(" + x + ")"
	case 2:
		x = "(?:" + x + ")"
	case 3:
		x = "(?m)" + x
	case 4:
		x = "(?P<n>" + x + ")"
	case 5:
		x = "(?s)(?:(?:" + x + "))"
	}
	if c.Never {
		never := `[^\x00-\x{10FFFF}]`
		switch (c.Wrap + c.Quote) % 5 {
		case 0:
			return never
		case 1:
			return "(?:" + x + ")" + never
		case 2:
			return never + "(?:" + x + ")"
		case 3:
			return "(?:" + x + ")(?:" + never + ")+"
		case 4:
			return never + ".*(?:" + x + ")|" + never
		}
	}
	return x
}

func (c *c26Case) want(text string) bool {
	if c.Never {
		return false
	}
	set := trigramSet(text)
	for _, l := range c.Lits {
		all := true
		for i := 0; i+3 <= len(l); i++ {
			if !set[string(l[i:i+3])] {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// apart reports whether the literals begin with different characters.
func (c *c26Case) apart() bool {
	seen := map[rune]bool{}
	for _, l := range c.Lits {
		r, _ := utf8.DecodeRuneInString(string(l))
		if seen[r] {
			return false
		}
		seen[r] = true
	}
	return true
}

// may reports whether a file may be selected.
func (c *c26Case) may(text string) bool {
	if c.Never || c.apart() {
		return c.want(text)
	}
	set := trigramSet(text)
	for _, l := range c.Lits {
		for i := 0; i+3 <= len(l); i++ {
			if set[string(l[i:i+3])] {
				return true
			}
		}
	}
	return false
}

func (c *c26Case) valid() bool {
	for _, l := range c.Lits {
		if len(l) < 3 || !utf8.ValidString(string(l)) || strings.ContainsAny(string(l), "\n\r\x00") {
			return false
		}
	}
	return len(c.Lits) > 0
}

func checkC26(e *Env, c c26Case) Result {
	if !c.valid() {
		return Result{Invalid: true}
	}
	x := c.expr()
	re, err := csre.Compile(x)
	if err != nil {
		if _, err2 := syntax.Parse(x, syntax.Perl); err2 != nil {
			return Result{Invalid: true}
		}
		return fail("Compile(%q): %v", x, err)
	}
	q := index.RegexpQuery(re.Syntax)
	var r Result
	yes, no := false, false
	for _, f := range c.Files {
		set := trigramSet(string(f))
		want := c.want(string(f))
		if got := evalQuery(q, set); got != want && (!got || !c.may(string(f))) {
			return fail("expression %q: query %v selects file %q: %v, want %v", x, q, f, got, want)
		}
		if want {
			yes = true
		} else {
			no = true
		}
	}
	r.Nontrivial = yes && no || c.Never
	if c.Never {
		r.label("cannot match")
	} else {
		r.label("literals %d", len(c.Lits))
		if !c.apart() {
			r.label("common beginning")
		}
	}
	return r
}

func checkC26Index(e *Env, c c26Case) Result {
	if !c.valid() {
		return Result{Invalid: true}
	}
	x := c.expr()
	re, err := csre.Compile(x)
	if err != nil {
		return Result{Invalid: true}
	}
	file := filepath.Join(e.Dir, "ix")
	var files []mfile
	want, may, all := []int{}, []int{}, 0
	for i, f := range c.Files {
		if !indexable(string(f)) {
			continue
		}
		files = append(files, mfile{B(fmt.Sprintf("/r/f%03d", i)), f})
		if c.want(string(f)) {
			want = append(want, all)
		}
		if c.may(string(f)) {
			may = append(may, all)
		}
		all++
	}
	if err := buildIndex(file, []string{"/r"}, files); err != nil {
		return fail("indexing: %v", err)
	}
	ix := index.Open(file)
	defer ix.Close()
	q := index.RegexpQuery(re.Syntax)
	got := ix.PostingQuery(q)
	in := map[int]bool{}
	for _, id := range got {
		in[id] = true
	}
	ok := len(in) == len(got)
	for _, id := range want {
		ok = ok && in[id]
		delete(in, id)
	}
	for _, id := range may {
		delete(in, id)
	}
	if !ok || len(in) > 0 {
		return fail("expression %q, query %v selects files %v, want %v, allow %v", x, q, got, want, may)
	}
	return Result{Nontrivial: len(want) > 0 && len(want) < all || c.Never}
}

func init() {
	rules["C26"] = "1-12 literals of 3 to about 60 bytes, now and then of thousands (also related ones, sharing beginnings or ends), written plainly, quoted, as escapes or in groups, or an expression that cannot match built around them; files with a literal, with all its trigrams apart, with all but one, with overlapping parts; selection by the derived query (evaluated by the model, and by a real index) compared with the definition; non-trivial: some file is selected and some is not, or the expression cannot match"
	assumptions["C26"] = []string{"a few literals: up to 12"}
	reg("C26", "query", opts{noDir: true, quick: 600000, thorough: 10000000, recycle: 100000}, genC26, checkC26)
	reg("C26", "index", opts{quick: 6000, thorough: 200000, recycle: 200, gcOff: true}, genC26, checkC26Index)
}
