package main

import (
	"fmt"
	"math/rand"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// C13 at scale: programs of many thousands of instructions, automata with
// many states, and texts of many lines.  A case is a few numbers, so that it
// shrinks and replays well.

type c13Big struct {
	Kind string // class, window, words, nest, lines
	Expr B      // class: the repeated item; lines: the whole expression
	N    int    // class: repetitions; window: window size; words: how many; nest: depth; lines: how many
	M    int    // where the texts deviate
	Seed int64
	Fold bool
}

var bigClasses = []string{`\pL`, `\p{Greek}`, `[^a]`, `(?i:\pL)`, `\PN`, `.`, `(?s:.)`, `[a-é]`, `[日-語]`, `(?:a|é|日)`, `(?:\pL|\pN)`, `(?i:k)`, `(?:ab?|c)`, `\w`, `(?:\pL\b|\pL)`}

func genC13Big(t *rapid.T) c13Big {
	c := c13Big{Kind: pick(t, []string{"class", "class", "window", "words", "nest", "lines", "lines"}, "kind"), Seed: rapid.Int64().Draw(t, "seed")}
	switch c.Kind {
	case "class":
		c.Expr = B(pick(t, bigClasses, "item"))
		c.N = intn(t, 1, 300, "n")
		c.M = intn(t, 0, c.N, "m")
	case "window":
		c.N = intn(t, 0, 9, "n")
		c.M = intn(t, 0, 4, "m")
	case "words":
		c.N = intn(t, 1, 1500, "n")
		c.M = intn(t, 0, c.N-1, "m")
		c.Fold = chance(t, 30, "fold")
	case "nest":
		c.N = intn(t, 0, 60, "n")
		c.M = intn(t, 0, 3, "m")
	case "lines":
		name := pick(t, alphabetNames, "alphabet")
		c.Expr = B(genRE(t, alphabets[name], asciiAlphabet(name)))
		if chance(t, 70, "multi") {
			c.Expr = "(?m)" + c.Expr
		}
		c.N = intn(t, 1, 400, "n")
		c.M = intn(t, 0, c.N, "m")
	}
	return c
}

// expand returns the expression and the texts of c.
func (c c13Big) expand() (string, []string) {
	rnd := rand.New(rand.NewSource(c.Seed))
	var texts []string
	switch c.Kind {
	case "class":
		expr := fmt.Sprintf("x(?:%s){%d}y", c.Expr, c.N)
		re, err := syntax.Parse(string(c.Expr), syntax.Perl)
		if err != nil {
			return expr, nil
		}
		one := func() string {
			var b strings.Builder
			sampleRand(rnd, re, &b, 100)
			return strings.ReplaceAll(b.String(), "\n", "")
		}
		for _, n := range []int{c.N - 1, c.N, c.N + 1} {
			s := "x"
			for i := 0; i < n; i++ {
				s += one()
			}
			texts = append(texts, s+"y", "q\n"+s+"y\n", s+"z", s)
		}
		s := "x"
		for i := 0; i < c.N; i++ {
			if i == c.M {
				s += pickRand(rnd, []string{"a", "1", "-", "\n", "K", "\u212a", "\U00010400", "α"})
			} else {
				s += one()
			}
		}
		texts = append(texts, s+"y")
		return expr, texts
	case "window":
		// The automaton needs to remember the last N characters.
		set := []string{"[ab]", "[aé]", "(?i:[ak])", ".", "[^z]"}[c.M]
		expr := fmt.Sprintf("(?:a|k)%s{%d}z", set, c.N)
		toks := []string{"a", "b", "k", "é", "z", "K", "\u212a", "\n"}
		for i := 0; i < 12; i++ {
			s := ""
			for j := rnd.Intn(60); j >= 0; j-- {
				k := rnd.Intn(30)
				if k >= len(toks) {
					k %= 2
				}
				s += toks[k]
			}
			texts = append(texts, s, s+"z")
		}
		return expr, texts
	case "words":
		syl := []string{"ba", "ke", "sé", "日", "x", "mo", "9", "_", "Σ", "K"}
		var words []string
		for i := 0; i < c.N; i++ {
			w := ""
			for j := rnd.Intn(5); j >= 0; j-- {
				w += syl[rnd.Intn(len(syl))]
			}
			words = append(words, w)
		}
		expr := `\b(?:` + strings.Join(words, "|") + `)!`
		if c.Fold {
			expr = "(?i)" + expr
		}
		for i := 0; i < 12; i++ {
			w := words[(c.M+i*i)%len(words)]
			switch rnd.Intn(4) {
			case 1:
				w = strings.ToUpper(w)
			case 2:
				w += syl[rnd.Intn(len(syl))]
			case 3:
				_, n := utf8.DecodeRuneInString(w)
				w = w[n:]
			}
			texts = append(texts, w+"!", "a"+w+"!", "\n-"+w+"!\nq", w)
		}
		return expr, texts
	case "nest":
		form := [][2]string{{"(", "a?)"}, {"(?:b|", "a)"}, {"(?:", "|é)?k"}, {"(?i:", "k+)*"}}[c.M]
		expr := strings.Repeat(form[0], c.N) + "z" + strings.Repeat(form[1], c.N)
		for i := 0; i < 10; i++ {
			s := "z"
			for j := 0; j < c.N+rnd.Intn(3)-1; j++ {
				s += pickRand(rnd, []string{"a", "k", "é", "K", "", "a", "k"})
			}
			texts = append(texts, s, "b"+s, s[1:])
		}
		return "^(?:" + expr + ")$", texts
	}
	expr := string(c.Expr)
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return expr, nil
	}
	// Lines that do not match on their own, for the most part, and one drawn
	// from the language at line M.
	lre, err := compileLineRE(expr)
	if err != nil {
		return expr, nil
	}
	var b strings.Builder
	toks := []string{"a", "b", "k", "é", " ", "_", "0", "ab", "日"}
	pool := []string{""}
	for i := 0; i < 40; i++ {
		s := ""
		for j := rnd.Intn(8); j > 0; j-- {
			s += toks[rnd.Intn(len(toks))]
		}
		if !lre.matchLine(s, 0, len(s), false, false) {
			pool = append(pool, s)
		}
	}
	for i := 0; i < c.N; i++ {
		if i == c.M {
			var w strings.Builder
			sampleRand(rnd, re, &w, 100)
			b.WriteString(w.String())
		} else {
			b.WriteString(pool[rnd.Intn(len(pool))])
		}
		b.WriteByte('\n')
	}
	s := b.String()
	return expr, []string{s, s[:len(s)-1], s + s}
}

func pickRand(rnd *rand.Rand, l []string) string { return l[rnd.Intn(len(l))] }

func checkC13Big(e *Env, c c13Big) Result {
	expr, texts := c.expand()
	cc := c13Case{Expr: B(expr)}
	for i, s := range texts {
		cc.Texts = append(cc.Texts, c13Text{B(s), i%3 != 2, i%4 != 3, i%2 == 0})
	}
	r := checkC13(e, cc)
	r.label("%s", c.Kind)
	return r
}
