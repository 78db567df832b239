package main

import (
	"fmt"
	"regexp/syntax"
	"unicode"
	"unicode/utf8"

	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C13: Match agrees with RE2 semantics, line by line.

type c13Text struct {
	Text     B
	Begin    bool
	End      bool
	AsString bool
}

type c13Case struct {
	Expr  B
	Texts []c13Text
}

var oddExprs = []string{
	"(", ")", "[", "a**", "*", "+a", "a{2", "a{1001}", "(?P<n", "(?P<n>a)", `\p{Foo}`, `\8`, "(?z)a", "[b-a]", `\Qab`, "a|*", "x{2}{3}",
	"(?<n>a)", "(a)\\1", "(?=a)", "[[:foo:]]", "a{,2}", "a\x80", "((((((((((x{2}){2}){2}){2}){2}){2}){2}){2}){2}){2})", "", "|", "()", "a||b", `\C`, `\x{110000}`, `\x{10FFFF}`, `(?i)\x{10FFFF}`, `\z`, `\A\z`, `$^`, `\n`, `a\nb`, `[\n]`, `[^\n]`, `(?s).`, `\pN`, `\p{^L}`, "(?i)[^k]", "(?i)[k-l]", "[^a]", "(?i)ſ", "(?i)K", `[\x{D800}-\x{DFFF}]`, `[\x{D7FF}-\x{E000}]`,
}

func genC13(t *rapid.T) c13Case {
	var c c13Case
	name := pick(t, alphabetNames, "alphabet")
	alpha := alphabets[name]
	ascii := asciiAlphabet(name)
	var expr string
	if chance(t, 3, "odd") {
		expr = pick(t, oddExprs, "oddexpr")
	} else if chance(t, 25, "directed") {
		line := genLine(t, alpha, 8)
		expr = reFromLine(t, line, alpha)
	} else {
		expr = genRE(t, alpha, ascii)
	}
	if chance(t, 50, "multi") {
		expr = "(?m)" + expr
	}
	if chance(t, 10, "foldall2") {
		expr = "(?i)" + expr
	}
	if chance(t, 1, "broken") {
		i := intn(t, 0, len(expr), "cut")
		expr = expr[:i]
	}
	c.Expr = B(expr)
	re, err := syntax.Parse(expr, syntax.Perl)
	n := intn(t, 1, 5, "ntexts")
	for i := 0; i < n; i++ {
		s := ""
		if err == nil && chance(t, 60, "sampled") {
			s = genSample(t, re, 120)
			switch intn(t, 0, 5, "wrap") {
			case 3:
				s = genLine(t, alpha, 2) + s + genLine(t, alpha, 2)
			case 4:
				s = genText(t, alpha, 2, 3) + "\n" + s + "\n" + genText(t, alpha, 2, 3)
			case 5:
				s += "\n"
			}
		} else {
			s = genText(t, alpha, 4, 6)
		}
		c.Texts = append(c.Texts, c13Text{B(s), !chance(t, 40, "nobegin"), !chance(t, 40, "noend"), chance(t, 30, "asstring")})
	}
	return c
}

func csMatch(re *csre.Regexp, x c13Text) int {
	if x.AsString {
		return re.MatchString(string(x.Text), x.Begin, x.End)
	}
	return re.Match([]byte(x.Text), x.Begin, x.End)
}

func checkC13(e *Env, c c13Case) Result {
	expr := string(c.Expr)
	lre, err := compileLineRE(expr)
	re, err1 := csre.Compile(expr)
	if (err == nil) != (err1 == nil) {
		return fail("Compile(%q) = %v, want error %v", expr, err1, err)
	}
	var r Result
	if err != nil {
		if re != nil {
			return fail("Compile(%q) returned both a Regexp and an error", expr)
		}
		r.label("rejected")
		return r
	}
	if re.String() != expr {
		return fail("Compile(%q).String() = %q", expr, re.String())
	}
	noB := usesNoWordBoundary(lre.prog)
	matched := false
	unmatched := false
	for _, x := range c.Texts {
		text := string(x.Text)
		if !utf8.ValidString(text) || noB && !isASCII(text) {
			continue
		}
		want := lre.firstMatch(text, x.Begin, x.End)
		got := csMatch(re, x)
		if got != want {
			return fail("%q on %q (beginText=%v endText=%v string=%v): Match = %d, want %d", expr, text, x.Begin, x.End, x.AsString, got, want)
		}
		if want >= 0 {
			matched = true
		} else {
			unmatched = true
		}
	}
	if matched && unmatched {
		r.label("both")
	}
	r.Nontrivial = matched && len(expr) > 0
	return r
}

// asciiPairs returns cases that try the classes and the empty-width
// assertions on every pair of ASCII characters.
func asciiPairs() []c13Case {
	var cases []c13Case
	for _, expr := range []string{
		`a\b`, `\ba`, `a\B`, `\Ba`, `\b.\B.`, `.\b.`, `.\B.`, `\B.\b`, `(?s)a\b.`, `(?s)\B.a`, `^\b`, `\b$`, `^\B`, `(?m)^.$`, `(?m)\b$`, `(?m)\B$`, `(?m)^\B.`, `(?i)a\bk`,
		`a\w`, `\Wa`, `\d-`, `-\D`, `a\s`, `\Sa`, `[[:alpha:]][[:punct:]]`, `[[:word:]][[:^word:]]`, `[[:upper:]]-`, `(?i)[[:upper:]]-`, `(?i)[^a-y]a`, `(?i)[^K]-`, `[[:cntrl:]]a`, `[[:xdigit:]]a`, `[[:graph:]]a`, `[[:print:]]a`, `[[:space:]]a`, `[[:blank:]]a`, `[^-a]a`, `[^\n]-`,
	} {
		var all []c13Text
		for a := 0; a < 128; a++ {
			for b := 0; b < 128; b++ {
				if a == 'a' || a == '-' || b == 'a' || b == '-' || (a*31+b)%7 == len(expr)%7 {
					all = append(all, c13Text{B([]byte{byte(a), byte(b)}), a%3 != 0, b%5 != 0, (a+b)%2 == 0})
				}
			}
		}
		for i := 0; i < len(all); i += 64 {
			cases = append(cases, c13Case{B(expr), all[i:min(i+64, len(all))]})
		}
	}
	return cases
}

// The sweep covers every rune that has case variants, and class ranges at and
// around UTF-8 length boundaries.

type c13Sweep struct {
	Lo, Hi rune // runes swept
	Mode   string
	Ranges [][2]rune // for mode "class": class members
	Probe  []rune
	Neg    bool
	Fold   bool
}

func genC13Sweep(t *rapid.T) c13Sweep {
	c := c13Sweep{Mode: "class"}
	edges := []rune{0, 0x09, '0', 'A', 'K', 'Z', 'a', 'k', 's', 'z', 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x17f, 0x3ff, 0x7ff, 0x800, 0xfff, 0x1000, 0x212a, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10428, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}
	r := func() rune {
		v := pick(t, edges, "edge")
		switch intn(t, 0, 3, "how") {
		case 1:
			v += rune(intn(t, -2, 2, "off"))
		case 2:
			v += rune(intn(t, -70, 70, "off"))
		case 3:
			v = rune(intn(t, 0, 0x10ffff, "any"))
		}
		return min(max(v, 0), 0x10ffff)
	}
	for n := intn(t, 1, 4, "nranges"); n > 0; n-- {
		lo := r()
		hi := lo
		switch intn(t, 0, 3, "span") {
		case 1:
			hi = min(lo+rune(intn(t, 0, 200, "w")), 0x10ffff)
		case 2, 3:
			hi = r()
		}
		if lo > hi {
			lo, hi = hi, lo
		}
		c.Ranges = append(c.Ranges, [2]rune{lo, hi})
		for d := rune(-1); d <= 1; d++ {
			c.Probe = append(c.Probe, lo+d, hi+d)
		}
		c.Probe = append(c.Probe, lo+rune(intn(t, 0, int(hi-lo), "inside")))
	}
	for n := intn(t, 0, 10, "nprobe"); n > 0; n-- {
		c.Probe = append(c.Probe, r())
	}
	c.Neg = chance(t, 25, "neg")
	c.Fold = chance(t, 40, "fold")
	return c
}

func checkC13Sweep(e *Env, c c13Sweep) Result {
	var r Result
	switch c.Mode {
	case "class":
		expr := ""
		if c.Fold {
			expr = "(?i)"
		}
		expr += "["
		if c.Neg {
			expr += "^"
		}
		for _, x := range c.Ranges {
			expr += fmt.Sprintf(`\x{%x}-\x{%x}`, x[0], x[1])
		}
		expr += "]"
		re, err := csre.Compile(expr)
		if err != nil {
			return fail("Compile(%q): %v", expr, err)
		}
		in, out := 0, 0
		for _, p := range c.Probe {
			if p < 0 || p > unicode.MaxRune || p >= 0xd800 && p < 0xe000 || p == '\n' {
				continue
			}
			want := c.Neg
			f := p
			for {
				for _, x := range c.Ranges {
					if x[0] <= f && f <= x[1] {
						want = !c.Neg
					}
				}
				f = unicode.SimpleFold(f)
				if !c.Fold || f == p {
					break
				}
			}
			text := string(p)
			got := re.MatchString(text, true, true)
			if (got >= 0) != want || want && got != len(text) {
				return fail("%q on %q (U+%04X): Match = %d, want match %v", expr, text, p, got, want)
			}
			if want {
				in++
			} else {
				out++
			}
		}
		r.Nontrivial = in > 0 && out > 0
		r.label("class")
	case "fold":
		// Every rune with case variants: as a literal, in a class, and inside a word.
		n := 0
		for x := c.Lo; x <= c.Hi; x++ {
			if unicode.SimpleFold(x) == x || x >= 0xd800 && x < 0xe000 {
				continue
			}
			n++
			orbit := map[rune]bool{x: true}
			for f := unicode.SimpleFold(x); f != x; f = unicode.SimpleFold(f) {
				orbit[f] = true
			}
			exprs := []string{"(?i)" + string(x), "(?i:[" + string(x) + "-" + string(x) + "])", "(?i)q" + string(x) + "z"}
			for i, ex := range exprs {
				re, err := csre.Compile(ex)
				if err != nil {
					return fail("Compile(%q): %v", ex, err)
				}
				wrap := func(r rune) string {
					if i == 2 {
						return "q" + string(r) + "z"
					}
					return string(r)
				}
				probes := []rune{x - 1, x + 1, x ^ 0x20, x + 0x40, x - 0x40}
				for f := range orbit {
					probes = append(probes, f, f+1, f-1)
				}
				for _, p := range probes {
					if p < 0 || p >= 0xd800 && p < 0xe000 || p > unicode.MaxRune || p == '\n' {
						continue
					}
					got := re.MatchString(wrap(p), true, true) >= 0
					if got != orbit[p] {
						return fail("%q on %q (U+%04X): match %v, want %v", ex, wrap(p), p, got, orbit[p])
					}
				}
			}
		}
		r.Nontrivial = n > 0
		r.label("fold-block")
	}
	return r
}

func init() {
	rules["C13"] = "expression + up to 5 texts with begin/end-of-text flags, expressions from an RE2 grammar, texts sampled from the expression's language or token soup; class ranges at UTF-8 boundaries; every rune with case variants enumerated; programs of up to a few hundred thousand instructions, automata with many states, texts of hundreds of lines. Non-trivial: some text matches (for classes: members and non-members probed; for blocks: contains a folding rune)"
	assumptions["C13"] = []string{"valid UTF-8 texts; \\B only on ASCII texts (documented approximation)", "oracle: rune-level NFA over Go's regexp/syntax programs"}
	reg("C13", "match", opts{noDir: true, quick: 160000, thorough: 8000000, recycle: 100000}, genC13, checkC13, asciiPairs()...)
	reg("C13", "large", opts{noDir: true, quick: 4000, thorough: 120000, recycle: 2000}, genC13Big, checkC13Big,
		c13Big{Kind: "class", Expr: `\pL`, N: 150, M: 75}, c13Big{Kind: "class", Expr: `(?i:\pL)`, N: 290, M: 280}, c13Big{Kind: "words", N: 1500, M: 3})
	var blocks []c13Sweep
	for lo := rune(0); lo <= unicode.MaxRune; lo += 0x400 {
		hi := lo + 0x3ff
		for x := lo; x <= hi; x++ {
			if unicode.SimpleFold(x) != x {
				blocks = append(blocks, c13Sweep{Lo: lo, Hi: hi, Mode: "fold"})
				break
			}
		}
	}
	reg("C13", "sweep", opts{noDir: true, quick: 40000, thorough: 1500000, recycle: 100000}, genC13Sweep, checkC13Sweep, blocks...)
}
