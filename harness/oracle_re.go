package main

import (
	"regexp/syntax"
	"strings"
	"sync"
	"unicode/utf8"
)

// A lineRE decides which lines of a text an expression matches, by simulating
// the rune-level NFA that Go's regexp/syntax package compiles, under RE2
// semantics with explicit line context.  Nothing of /repo is involved.
type lineRE struct {
	prog *syntax.Prog
	on   []uint32 // sparse marks
	gen  uint32
}

var reCache sync.Map

func compileLineRE(expr string) (*lineRE, error) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &lineRE{prog: prog, on: make([]uint32, len(prog.Inst))}, nil
}

func wordRune(r rune) bool {
	return 'A' <= r && r <= 'Z' || 'a' <= r && r <= 'z' || '0' <= r && r <= '9' || r == '_'
}

// matchLine reports whether the line text[s:e] (which contains no newline)
// contains a match.  The start of text counts as beginning of text if
// beginText, else merely as beginning of line; likewise the end.
func (r *lineRE) matchLine(text string, s, e int, beginText, endText bool) bool {
	var cur, next []uint32
	prev := rune(-1)
	if s > 0 {
		prev, _ = utf8.DecodeLastRuneInString(text[:s])
	}
	p := s
	for {
		// Empty-width flags at p.
		var flag syntax.EmptyOp
		if p == 0 {
			flag |= syntax.EmptyBeginLine
			if beginText {
				flag |= syntax.EmptyBeginText
			}
		} else if text[p-1] == '\n' {
			flag |= syntax.EmptyBeginLine
		}
		nr, size := rune(-1), 0
		if p < len(text) {
			nr, size = utf8.DecodeRuneInString(text[p:])
		}
		if p == len(text) {
			flag |= syntax.EmptyEndLine
			if endText {
				flag |= syntax.EmptyEndText
			}
		} else if text[p] == '\n' {
			flag |= syntax.EmptyEndLine
		}
		if wordRune(prev) != wordRune(nr) {
			flag |= syntax.EmptyWordBoundary
		} else {
			flag |= syntax.EmptyNoWordBoundary
		}
		// Expand.
		r.gen++
		next = next[:0]
		matched := false
		var add func(pc uint32)
		add = func(pc uint32) {
			if r.on[pc] == r.gen {
				return
			}
			r.on[pc] = r.gen
			i := &r.prog.Inst[pc]
			switch i.Op {
			case syntax.InstMatch:
				matched = true
			case syntax.InstAlt, syntax.InstAltMatch:
				add(i.Out)
				add(i.Arg)
			case syntax.InstCapture, syntax.InstNop:
				add(i.Out)
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(i.Arg)&^flag == 0 {
					add(i.Out)
				}
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				next = append(next, pc)
			}
		}
		for _, pc := range cur {
			add(pc)
		}
		add(uint32(r.prog.Start))
		if matched {
			return true
		}
		if p >= e {
			return false
		}
		cur = cur[:0]
		for _, pc := range next {
			i := &r.prog.Inst[pc]
			if i.MatchRune(nr) {
				cur = append(cur, i.Out)
			}
		}
		prev = nr
		p += size
	}
}

// firstMatch is what Match should return for text: the end of the first line
// that matches, counting the (possibly empty) segment after the last newline.
func (r *lineRE) firstMatch(text string, beginText, endText bool) int {
	s := 0
	for {
		e := len(text)
		if i := strings.IndexByte(text[s:], '\n'); i >= 0 {
			e = s + i
		}
		if r.matchLine(text, s, e, beginText, endText) {
			return e
		}
		if e == len(text) {
			return -1
		}
		s = e + 1
	}
}

// A textLine is one line of a text as grep sees it.
type textLine struct {
	text string // without newline
	nl   bool   // followed by newline
}

func splitLines(text string) []textLine {
	var l []textLine
	for len(text) > 0 {
		i := strings.IndexByte(text, '\n')
		if i < 0 {
			l = append(l, textLine{text, false})
			break
		}
		l = append(l, textLine{text[:i], true})
		text = text[i+1:]
	}
	return l
}

// A lineMemo matches lines of one file, remembering answers for repeated lines.
type lineMemo struct {
	re   *lineRE
	memo map[string]bool
}

func newLineMemo(re *lineRE) *lineMemo { return &lineMemo{re: re, memo: map[string]bool{}} }

// match reports whether a line matches; first says it begins the file.
func (m *lineMemo) match(l textLine, first bool) bool {
	plain := !first && l.nl
	if plain {
		if v, ok := m.memo[l.text]; ok {
			return v
		}
	}
	ctx := l.text
	off := 0
	if !first {
		ctx = "\n" + ctx
		off = 1
	}
	end := len(ctx)
	if l.nl {
		ctx += "\n"
	}
	v := m.re.matchLine(ctx, off, end, true, true)
	if plain && len(m.memo) < 1<<16 {
		m.memo[l.text] = v
	}
	return v
}

// matchingLines returns the indexes of the lines of text that match.
func (r *lineRE) matchingLines(text string) []int {
	var out []int
	m := newLineMemo(r)
	for i, l := range splitLines(text) {
		if m.match(l, i == 0) {
			out = append(out, i)
		}
	}
	return out
}
