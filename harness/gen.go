package main

import (
	"fmt"
	"math/rand"
	"regexp/syntax"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Small helpers over rapid.

func draw[T any](t *rapid.T, g *rapid.Generator[T], label string) T { return g.Draw(t, label) }

func intn(t *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func pick[T any](t *rapid.T, l []T, label string) T { return rapid.SampledFrom(l).Draw(t, label) }

// chance is true with probability about pct/100, and shrinks to false.
func chance(t *rapid.T, pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

// Alphabets: families of tokens used for texts and expressions together, so
// that they have much to do with each other.
var alphabets = map[string][]string{
	"ascii": {"a", "b", "c", "ab", "abc", "bca", " ", "_", "A", "B", "C", "0", "-", "aab", "\t", "cab"},
	"words": {"foo", "bar", "fo", "o", "ba", "r", " ", "Foo", "BAR", "foobar", "x", "quux", ".", "(", "_", "9"},
	"fold":  {"k", "K", "\u212a", "s", "S", "\u017f", "é", "É", "σ", "ς", "Σ", "ß", "ẞ", "i", "I", "İ", "ı", "ǅ", "Ǆ", "ǆ", "ϐ", "β", "Β", "𐐀", "𐐨", "𞤀", "𞤢", "Ⓐ", "ⓐ", "ω", "Ω", "\u2126", "å", "Å", "\u212b", "a"},
	"utf8":  {"a", "\u007f", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "日", "本", "語", "é", "À", "\u00ff", "\u0100", "\u3fff", "\u4000", "\U0003ffff", "\U00040000", "b", "\u0301", "a"},
	// The bytes on both sides of each boundary of the ASCII classes.
	"edges": {"/", "0", "9", ":", "@", "A", "Z", "[", "^", "_", "`", "a", "z", "{", "~", "\x7f", "!", " ", "\t", "\f", "\r", "\v", "K", "s"},
}

var alphabetNames = []string{"ascii", "words", "fold", "utf8", "edges"}

// asciiAlphabet reports whether the alphabet of that name has only ASCII.
func asciiAlphabet(name string) bool {
	return name == "ascii" || name == "words" || name == "edges"
}

// specialWords are drawn into alphabets now and then: they collide with
// regexp syntax.
func genLine(t *rapid.T, alpha []string, maxTok int) string {
	n := intn(t, 0, maxTok, "ntok")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, alpha, "tok"))
	}
	return b.String()
}

func genText(t *rapid.T, alpha []string, maxLines, maxTok int) string {
	n := intn(t, 0, maxLines, "nlines")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(genLine(t, alpha, maxTok))
		if i < n-1 || !chance(t, 30, "nofinalnl") {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// fileHeads are beginnings by which programs recognize kinds of files; here
// they must be text like any other.
var fileHeads = []string{"#!/bin/sh\n", "%PDF-1.4\n", "PK\x03\x04", "<?xml version=\"1.0\"?>\n", "<!DOCTYPE html>\n", "\r\n", "\x1f", "// Code generated by x. DO NOT EDIT.\n", "\x1b[", "\x7fELF", "GIF89a", "-----BEGIN X-----\n", "BZh9", "{\\rtf", "!<arch>\n", "RIFF", "\f", "\n", " ", "\x1a", "\b", "\ufeff", "\ufeff\n", "\ufffe", "\u200b", "\u2028", "\u0085"}

const asciiHeads = 21

func genHead(t *rapid.T, ascii bool) string {
	if !chance(t, 7, "head") {
		return ""
	}
	if ascii {
		return pick(t, fileHeads[:asciiHeads], "fileheadascii")
	}
	return pick(t, fileHeads, "filehead")
}

// A reGen makes regular expressions in RE2 syntax.
type reGen struct {
	t      *rapid.T
	alpha  []string
	ascii  bool // only ASCII texts: \B is usable
	budget int
	groups int
}

func quoteRE(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$-`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func quoteClassRune(r rune) string {
	if strings.ContainsRune(`\]^-[&~`, r) {
		return `\` + string(r)
	}
	if r < ' ' || r == 0x7f {
		return fmt.Sprintf(`\x{%x}`, r)
	}
	return string(r)
}

var perlClasses = []string{`\d`, `\w`, `\s`, `\D`, `\W`, `\S`, `\pL`, `\p{Greek}`, `\PL`, `\pN`, `[[:alpha:]]`, `[[:^alpha:]]`, `[[:upper:]]`, `[[:word:]]`, `\p{Lu}`, `\pM`, `\P{Latin}`, `[^\w]`, `[\d_]`, `[^[:space:]]`}

func (g *reGen) rune() rune {
	tok := []rune(pick(g.t, g.alpha, "retok"))
	return tok[intn(g.t, 0, len(tok)-1, "ri")]
}

func (g *reGen) class() string {
	t := g.t
	if chance(t, 25, "perl") {
		return pick(t, perlClasses, "perlclass")
	}
	var b strings.Builder
	b.WriteByte('[')
	if chance(t, 20, "neg") {
		b.WriteByte('^')
	}
	n := intn(t, 1, 5, "nclass")
	for i := 0; i < n; i++ {
		switch intn(t, 0, 9, "classkind") {
		default:
			b.WriteString(quoteClassRune(g.rune()))
		case 6, 7:
			lo, hi := g.rune(), g.rune()
			if d := rune(intn(t, 0, 3, "spread")); hi+d <= unicode.MaxRune {
				hi += d
			}
			if lo > hi {
				lo, hi = hi, lo
			}
			if lo > 0xd7ff && lo < 0xe000 {
				lo = 0xe000
			}
			if hi > 0xd7ff && hi < 0xe000 {
				hi = 0xe000
			}
			b.WriteString(quoteClassRune(lo) + "-" + quoteClassRune(hi))
		case 8:
			b.WriteString(pick(t, []string{`\d`, `\s`, `[:upper:]`, `\pL`, `[:digit:]`, `\p{Ll}`}, "inclass"))
		case 9:
			lo := rune(intn(t, 0, 0x10ffff, "anylo"))
			hi := lo + rune(intn(t, 0, 5000, "anyspan"))
			if hi > unicode.MaxRune {
				hi = unicode.MaxRune
			}
			b.WriteString(fmt.Sprintf(`\x{%x}-\x{%x}`, lo, hi))
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (g *reGen) atom(depth int) string {
	t := g.t
	g.budget--
	k := intn(t, 0, 19, "atom")
	if depth <= 0 && k >= 16 {
		k = 0
	}
	switch k {
	default:
		return quoteRE(pick(t, g.alpha, "lit"))
	case 8, 9, 10:
		return g.class()
	case 11:
		return "."
	case 12:
		l := []string{"^", "$", `\b`, `\A`, `\z`, "()", "(?:)", `[^\x00-\x{10FFFF}]`}
		if g.ascii {
			l = append(l, `\B`)
		}
		return pick(t, l, "empty")
	case 13:
		// A literal with several tokens.
		return quoteRE(pick(t, g.alpha, "lit") + pick(t, g.alpha, "lit") + pick(t, g.alpha, "lit"))
	case 14:
		return quoteRE(pick(t, g.alpha, "lit") + pick(t, g.alpha, "lit"))
	case 15:
		return `\Q` + strings.ReplaceAll(pick(t, g.alpha, "qlit"), `\`, "") + `\E`
	case 16, 17:
		return "(" + g.alt(depth-1) + ")"
	case 18:
		return "(?:" + g.alt(depth-1) + ")"
	case 19:
		f := pick(t, []string{"i", "s", "U", "m", "-m", "-i", "is", "i-s"}, "flags")
		return "(?" + f + ":" + g.alt(depth-1) + ")"
	}
}

func (g *reGen) rep(depth int) string {
	t := g.t
	a := g.atom(depth)
	k := intn(t, 0, 19, "rep")
	if k < 12 {
		return a
	}
	if len([]rune(a)) > 1 && a[0] != '(' && a[0] != '[' && !(a[0] == '\\' && len([]rune(a)) == 2) && a[0] != '.' || strings.HasPrefix(a, `\Q`) || strings.HasPrefix(a, `\p`) {
		a = "(?:" + a + ")"
	}
	q := ""
	switch k {
	case 12, 13:
		q = "*"
	case 14, 15:
		q = "+"
	case 16, 17:
		q = "?"
	case 18:
		q = fmt.Sprintf("{%d}", intn(t, 0, 3, "n"))
	case 19:
		n := intn(t, 0, 2, "n")
		if chance(t, 30, "open") {
			q = fmt.Sprintf("{%d,}", n)
		} else {
			q = fmt.Sprintf("{%d,%d}", n, n+intn(t, 0, 2, "m"))
		}
	}
	if chance(t, 15, "lazy") {
		q += "?"
	}
	return a + q
}

func (g *reGen) concat(depth int) string {
	n := intn(g.t, 1, 4, "nconcat")
	var b strings.Builder
	for i := 0; i < n && g.budget > 0; i++ {
		b.WriteString(g.rep(depth))
	}
	return b.String()
}

func (g *reGen) alt(depth int) string {
	n := 1
	if chance(g.t, 35, "isalt") {
		n = intn(g.t, 2, 5, "nalt")
	}
	l := []string{g.concat(depth)}
	for i := 1; i < n && g.budget > 0; i++ {
		l = append(l, g.concat(depth))
	}
	return strings.Join(l, "|")
}

// genRE makes an expression over the alphabet.
func genRE(t *rapid.T, alpha []string, ascii bool) string {
	g := &reGen{t: t, alpha: alpha, ascii: ascii, budget: 14}
	s := g.alt(3)
	if chance(t, 25, "foldall") {
		s = "(?i)" + s
	}
	return s
}

// genWordyRE combines longer words over a tiny alphabet, so that queries get
// several trigrams that overlap between branches.
func genWordyRE(t *rapid.T, depth int) string {
	word := func() string {
		n := intn(t, 2, 7, "wordlen")
		b := make([]byte, n)
		for i := range b {
			b[i] = "abc"[intn(t, 0, 2, "ch")]
		}
		return string(b)
	}
	k := intn(t, 0, 9, "wordy")
	if depth <= 0 {
		k = 0
	}
	switch k {
	default:
		return word()
	case 3, 4:
		return genWordyRE(t, depth-1) + genWordyRE(t, depth-1)
	case 5:
		return genWordyRE(t, depth-1) + pick(t, []string{".*", ".", ".+", "[ab]", "x?", "[a-c]{2}", "(?i:ab)"}, "gap") + genWordyRE(t, depth-1)
	case 6, 7:
		l := []string{genWordyRE(t, depth-1)}
		for n := intn(t, 1, 5, "nalt"); n > 0; n-- {
			l = append(l, genWordyRE(t, depth-1))
		}
		return "(" + strings.Join(l, "|") + ")"
	case 8:
		return "(?:" + genWordyRE(t, depth-1) + ")" + pick(t, []string{"?", "+", "*", "{2}", "{1,3}"}, "rep")
	case 9:
		return "(?i:" + genWordyRE(t, depth-1) + ")"
	}
}

// genAltRE concatenates alternations of words, some of them nested, optional or
// ignoring case: queries with disjunctions that have much in common.
func genAltRE(t *rapid.T) string {
	letters := pick(t, []string{"ab", "abc", "aké", "abcdefgh"}, "altletters")
	word := func() string {
		rs := []rune(letters)
		var b strings.Builder
		n := intn(t, 1, 6, "wordlen")
		if n == 6 {
			n = 9
		}
		for ; n > 0; n-- {
			b.WriteRune(rs[intn(t, 0, len(rs)-1, "ch")])
		}
		return b.String()
	}
	item := func() string {
		switch intn(t, 0, 11, "item") {
		case 8:
			return "(?i:" + word() + ")"
		case 9:
			return word() + "(" + word() + "|" + word() + ")" + word()
		case 10:
			return word() + pick(t, []string{".*", ".", "x?", "(?:" + word() + ")?", "[" + letters + "]", "+"}, "gap") + word()
		case 11:
			return "(" + word() + ")"
		}
		return word()
	}
	var b strings.Builder
	if chance(t, 30, "prefix") {
		b.WriteString(word())
	}
	for n := intn(t, 1, 3, "ngroups"); n > 0; n-- {
		var l []string
		for m := intn(t, 2, 7, "nalts"); m > 0; m-- {
			l = append(l, item())
		}
		b.WriteString(pick(t, []string{"(?:", "(", "(?i:"}, "open") + strings.Join(l, "|") + ")" + pick(t, []string{"", "", "", "", ".*", ".", "+"}, "between"))
	}
	if chance(t, 30, "suffix") {
		b.WriteString(word())
	}
	return b.String()
}

// genSample draws a string from the language of the expression, ignoring
// empty-width assertions.
func genSample(t *rapid.T, re *syntax.Regexp, max int) string {
	var b strings.Builder
	sample(t, re, &b, max)
	return b.String()
}

func sample(t *rapid.T, re *syntax.Regexp, b *strings.Builder, max int) {
	if b.Len() > max {
		return
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 {
				for n := intn(t, 0, 3, "fold"); n > 0; n-- {
					r = unicode.SimpleFold(r)
				}
			}
			b.WriteRune(r)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		i := 2 * intn(t, 0, len(re.Rune)/2-1, "range")
		lo, hi := re.Rune[i], re.Rune[i+1]
		r := lo
		switch intn(t, 0, 3, "inrange") {
		case 1:
			r = hi
		case 2:
			r = lo + rune(intn(t, 0, int(hi-lo), "r"))
		case 3:
			r = lo + rune(intn(t, 0, min(int(hi-lo), 100), "r"))
		}
		if r == '\n' || r >= 0xd800 && r < 0xe000 {
			return
		}
		b.WriteRune(r)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteString(pick(t, []string{"a", "b", "z", "é", "日", " "}, "any"))
	case syntax.OpCapture:
		sample(t, re.Sub[0], b, max)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		lo, hi := 0, 3
		switch re.Op {
		case syntax.OpPlus:
			lo = 1
		case syntax.OpQuest:
			hi = 1
		case syntax.OpRepeat:
			lo, hi = re.Min, re.Max
			if hi < 0 {
				hi = lo + 2
			}
		}
		for n := intn(t, lo, hi, "times"); n > 0; n-- {
			sample(t, re.Sub[0], b, max)
		}
	case syntax.OpConcat:
		for _, s := range re.Sub {
			sample(t, s, b, max)
		}
	case syntax.OpAlternate:
		sample(t, re.Sub[intn(t, 0, len(re.Sub)-1, "branch")], b, max)
	}
}

// sampleRand is sample with plain random choices, and few repetitions.
func sampleRand(rnd *rand.Rand, re *syntax.Regexp, b *strings.Builder, max int) {
	if b.Len() > max {
		return
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, r := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 {
				for n := rnd.Intn(4); n > 0; n-- {
					r = unicode.SimpleFold(r)
				}
			}
			b.WriteRune(r)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		i := 2 * rnd.Intn(len(re.Rune)/2)
		lo, hi := re.Rune[i], re.Rune[i+1]
		r := lo
		switch rnd.Intn(3) {
		case 0:
			r = hi
		case 1:
			r = lo + rune(rnd.Intn(int(hi-lo)+1))
		}
		if r >= 0xd800 && r < 0xe000 {
			return
		}
		b.WriteRune(r)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteString([]string{"a", "b", "z", "é", "日", " "}[rnd.Intn(6)])
	case syntax.OpCapture:
		sampleRand(rnd, re.Sub[0], b, max)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		lo, hi := 0, -1
		switch re.Op {
		case syntax.OpPlus:
			lo = 1
		case syntax.OpQuest:
			hi = 1
		case syntax.OpRepeat:
			lo, hi = re.Min, re.Max
		}
		n := lo
		for (hi < 0 || n < hi) && n < lo+4 && rnd.Intn(2) == 0 {
			n++
		}
		for ; n > 0; n-- {
			sampleRand(rnd, re.Sub[0], b, max)
		}
	case syntax.OpConcat:
		for _, s := range re.Sub {
			sampleRand(rnd, s, b, max)
		}
	case syntax.OpAlternate:
		sampleRand(rnd, re.Sub[rnd.Intn(len(re.Sub))], b, max)
	}
}

// reFromLine turns a piece of text into an expression that matches it.
func reFromLine(t *rapid.T, line string, alpha []string) string {
	rs := []rune(line)
	if len(rs) == 0 {
		return "^$"
	}
	i := intn(t, 0, len(rs)-1, "from")
	j := intn(t, i+1, min(len(rs), i+12), "to")
	var b strings.Builder
	if i == 0 && chance(t, 20, "anchor") {
		b.WriteString("^")
	}
	for ; i < j; i++ {
		r := rs[i]
		q := quoteRE(string(r))
		if r < ' ' {
			q = fmt.Sprintf(`\x{%x}`, r)
		}
		switch intn(t, 0, 15, "how") {
		default:
			b.WriteString(q)
		case 7:
			b.WriteString(".")
		case 8:
			b.WriteString("[" + quoteClassRune(r) + quoteClassRune([]rune(pick(t, alpha, "other"))[0]) + "]")
		case 9:
			b.WriteString("(?i:" + quoteRE(string(unicode.SimpleFold(r))) + ")")
		case 10:
			b.WriteString(q + "+")
		case 11:
			b.WriteString(quoteRE(pick(t, alpha, "extra")) + "*")
			b.WriteString(q)
		case 12:
			b.WriteString("(" + quoteRE(pick(t, alpha, "extra")) + "|" + q + ")")
		case 13:
			b.WriteString("(?:" + q + "|" + quoteRE(pick(t, alpha, "extra")+pick(t, alpha, "extra")) + "|)")
		case 14:
			b.WriteString(".*" + q)
		case 15:
			b.WriteString("(?:" + q + "){1,2}")
		}
	}
	if j == len(rs) && chance(t, 20, "anchor") {
		b.WriteString("$")
	}
	return b.String()
}

// isASCII reports whether all bytes of s are ASCII.
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
