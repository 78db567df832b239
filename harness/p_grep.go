package main

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"io"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C15, C16, C17, C18: what Grep prints.

// A seg is a piece of text repeated.
type seg struct {
	T B
	N int `json:",omitempty"` // 0 means once
}

// A textSpec describes a possibly large text compactly.
type textSpec []seg

func (s textSpec) String() string {
	n := 0
	for _, x := range s {
		n += len(x.T) * max(x.N, 1)
	}
	var b strings.Builder
	b.Grow(n)
	for _, x := range s {
		for i := max(x.N, 1); i > 0; i-- {
			b.WriteString(string(x.T))
		}
	}
	return b.String()
}

func (s textSpec) size() int {
	n := 0
	for _, x := range s {
		n += len(x.T) * max(x.N, 1)
	}
	return n
}

// A grepFile is one input of a Grep.
type grepFile struct {
	Name  B
	Text  textSpec
	Chunk int    `json:",omitempty"` // bytes per Read, 0: as many as asked for
	EOF   bool   `json:",omitempty"` // the last data comes together with EOF (or the error)
	Err   string `json:",omitempty"` // reading fails after the text
}

type grepCase struct {
	Expr        B
	Files       []grepFile
	L, C, N, H  bool `json:",omitempty"`
	V, HTML     bool `json:",omitempty"`
	Pre, Post   int  `json:",omitempty"`
	Limit       int  `json:",omitempty"`
	StopLimited bool `json:",omitempty"` // the caller stops when the limit is reached, as csweb does
}

// A pieceReader delivers a text in pieces.
type pieceReader struct {
	s     string
	chunk int
	early bool
	err   error
}

func (r *pieceReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, r.err
	}
	n := len(b)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(b[:n], r.s)
	r.s = r.s[n:]
	if r.early && r.s == "" {
		return n, r.err
	}
	return n, nil
}

var errText = map[string]error{
	"":     io.EOF,
	"ueof": io.ErrUnexpectedEOF,
	"disk": errors.New("input/output error"),
	"html": errors.New(`read <b>"x"&amp;`),
}

// An outPiece is expected output: one of several alternatives.
type outPiece []string

// matchPieces compares output with the expected sequence of pieces.
func matchPieces(out string, want []outPiece) string {
	rest := out
	for i, p := range want {
		ok := false
		for _, alt := range p {
			if strings.HasPrefix(rest, alt) {
				// Prefer the longest alternative: they never are prefixes of each other
				// except for identical ones.
				rest = rest[len(alt):]
				ok = true
				break
			}
		}
		if !ok {
			d := 0
			w := p[0]
			for _, alt := range p {
				if x := firstDiff(alt, rest); x > d {
					d, w = x, alt
				}
			}
			at := len(out) - len(rest) + d
			return fmt.Sprintf("output differs at byte %d (piece %d of %d): after %q want %q, got %q", at, i, len(want), out[max(0, at-60):at], clip(w[d:]), clip(rest[d:]))
		}
	}
	if rest != "" {
		return fmt.Sprintf("unexpected output %q after all %d expected pieces", clip(rest), len(want))
	}
	return ""
}

// An outBuf collects expected output.
type outBuf struct {
	pieces []outPiece
	cur    []byte
	size   int
}

func (o *outBuf) add(s ...string) {
	for _, x := range s {
		o.cur = append(o.cur, x...)
		o.size += len(x)
	}
}

func (o *outBuf) alt(p outPiece) {
	if len(p) == 1 {
		o.add(p[0])
		return
	}
	o.flush()
	o.pieces = append(o.pieces, p)
	o.size += len(p[0])
}

func (o *outBuf) flush() {
	if len(o.cur) > 0 {
		o.pieces = append(o.pieces, outPiece{string(o.cur)})
		o.cur = o.cur[:0]
	}
}

// diff compares output with what is expected.
func (o *outBuf) diff(out string) string {
	o.flush()
	return matchPieces(out, o.pieces)
}

func (o *outBuf) String() string {
	o.flush()
	var b strings.Builder
	for _, p := range o.pieces {
		b.WriteString(p[0])
	}
	return b.String()
}

// firstDiff is the length of the common prefix.
func firstDiff(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// A grepFlags is what determines the form of output.
type grepFlags struct {
	L, C, N, H, V, HTML bool
	Pre, Post           int
	Limit               int
}

// A grepModel predicts the output of a Grep over a sequence of files.
type grepModel struct {
	f       grepFlags
	re      *lineRE
	expr    string // for HTML links
	out     outBuf
	matches int
	match   bool
	limited bool
	max     int  // enough output
	lines   int  // lines seen
	some    int  // files with matches
	deep    bool // a match beyond the first buffer
	stop    bool // last file ended early: errors need not be noticed
}

func chompBlank(s string) string { return strings.TrimRight(s, " \t\r\n") }

func commonIndent(lines []string) string {
	prefix := ""
	first := true
	for _, l := range lines {
		if l == "" {
			continue
		}
		ws := l[:len(l)-len(strings.TrimLeft(l, " \t"))]
		if first {
			prefix = ws
			first = false
			continue
		}
		i := 0
		for i < len(prefix) && i < len(ws) && prefix[i] == ws[i] {
			i++
		}
		prefix = prefix[:i]
	}
	return prefix
}

func (m *grepModel) esc(s string) string {
	if m.f.HTML {
		return html.EscapeString(s)
	}
	return s
}

// context renders one match with its surroundings.
func (m *grepModel) context(name string, lines []textLine, i int) outPiece {
	var all []string
	lo, hi := max(0, i-m.f.Pre), min(len(lines), i+1+m.f.Post)
	for _, l := range lines[lo:hi] {
		all = append(all, chompBlank(l.text))
	}
	render := func(prefix string) string {
		var b strings.Builder
		if !m.f.H {
			b.WriteString(m.esc(name + ":"))
		}
		fmt.Fprintf(&b, "%d:\n", i+1)
		for j, l := range all {
			if l != "" {
				l = l[len(prefix):]
			}
			if lo+j == i {
				b.WriteString("\t>>\t")
			} else {
				b.WriteString("\t\t")
			}
			b.WriteString(m.esc(l) + "\n")
		}
		return b.String()
	}
	p := outPiece{render(commonIndent(all))}
	if all[i-lo] == "" {
		// A blank matching line may or may not count when indentation is removed.
		p = append(p, render(""))
	}
	return p
}

func (m *grepModel) href(name string, n int) string {
	return `/show/` + strings.ReplaceAll(name, "#", ">") + `?q=` + m.expr + fmt.Sprintf("#L%d", n)
}

// file adds the expected output for one more file.
func (m *grepModel) file(name, text string) {
	m.stop = false
	lines := splitLines(text)
	m.lines += len(lines)
	memo := newLineMemo(m.re)
	count, off := 0, 0
	any := false
	defer func() {
		if any {
			m.some++
		}
		if m.f.C && count > 0 {
			switch {
			case m.f.L:
			case m.f.HTML:
				m.out.add(fmt.Sprintf("<a href=\"show/%s?q=%s\">%s</a>: %d\n", m.esc(name), m.esc(m.expr), m.esc(name), count))
			case m.f.H:
				m.out.add(fmt.Sprintf("%d\n", count))
			default:
				m.out.add(fmt.Sprintf("%s: %d\n", name, count))
			}
		}
	}()
	for i, l := range lines {
		if m.max > 0 && m.out.size > m.max {
			return
		}
		start := off
		off += len(l.text) + 1
		if memo.match(l, i == 0) == m.f.V {
			continue
		}
		any = true
		m.match = true
		if m.f.Limit > 0 && m.matches >= m.f.Limit {
			m.limited = true
			m.stop = true
			return
		}
		m.matches++
		if start >= 1<<20 {
			m.deep = true
		}
		prefix := ""
		if !m.f.H {
			prefix = name + ":"
		}
		switch {
		case m.f.L && m.f.HTML:
			m.out.add(fmt.Sprintf("<a href=\"show/%s\">%s</a>\n", m.esc(name), m.esc(name)))
		case m.f.L:
			m.out.add(name + "\n")
		case m.f.C:
			count++
		case m.f.Pre+m.f.Post > 0:
			m.out.alt(m.context(name, lines, i))
		case m.f.HTML:
			m.out.add(fmt.Sprintf("<a href=\"%s\">%s:%d</a>:%s\n", m.esc(m.href(name, i+1)), m.esc(name), i+1, m.esc(l.text)))
		case m.f.N:
			m.out.add(prefix, strconv.Itoa(i+1), ":", l.text, "\n")
		default:
			m.out.add(prefix, l.text, "\n")
		}
		if m.f.L {
			m.stop = true
			return
		}
	}
}

func (c *grepCase) flags() grepFlags {
	return grepFlags{L: c.L, C: c.C, N: c.N, H: c.H, V: c.V, HTML: c.HTML, Pre: c.Pre, Post: c.Post, Limit: c.Limit}
}

// checkGrep runs a Grep over the files and compares everything with the model.
func checkGrep(c grepCase) (Result, *grepModel) {
	expr := string(c.Expr)
	lre, err := compileLineRE(expr)
	if err != nil {
		return Result{Invalid: true}, nil
	}
	re, err := csre.Compile(expr)
	if err != nil {
		return fail("Compile(%q): %v", expr, err), nil
	}
	noB := usesNoWordBoundary(lre.prog)
	m := &grepModel{f: c.flags(), re: lre, expr: expr, max: 48 << 20}
	type step struct {
		text    string
		err     error
		stderr  outPiece
		limited bool
	}
	var steps []step
	for _, f := range c.Files {
		text := f.Text.String()
		e, ok := errText[f.Err]
		if !ok || !utf8.ValidString(text) || noB && !isASCII(text) {
			return Result{Invalid: true}, nil
		}
		if c.StopLimited && m.limited {
			break
		}
		m.file(string(f.Name), text)
		st := step{text, e, outPiece{""}, m.limited}
		if e != io.EOF {
			st.stderr = outPiece{m.esc(string(f.Name)+": "+e.Error()) + "\n"}
			if m.stop {
				st.stderr = append(st.stderr, "")
			}
		}
		steps = append(steps, st)
		if m.out.size > m.max {
			return Result{Invalid: true}, nil
		}
	}
	var stdout, stderr bytes.Buffer
	g := csre.Grep{Regexp: re, Stdout: &stdout, Stderr: &stderr, L: c.L, C: c.C, N: c.N, H: c.H, V: c.V, HTML: c.HTML, PreContext: c.Pre, PostContext: c.Post, Limit: c.Limit}
	for i, st := range steps {
		f := c.Files[i]
		stderr.Reset()
		g.Reader(&pieceReader{st.text, f.Chunk, f.EOF, st.err}, string(f.Name))
		if d := matchPieces(stderr.String(), []outPiece{st.stderr}); d != "" {
			return fail("file %d: stderr: %s", i, d), m
		}
		if g.Limited != st.limited {
			return fail("after file %d: Limited = %v, want %v (limit %d, %d matches)", i, g.Limited, st.limited, c.Limit, m.matches), m
		}
	}
	if d := m.out.diff(stdout.String()); d != "" {
		return fail("stdout: %s", d), m
	}
	if g.Match != m.match {
		return fail("Match = %v, want %v", g.Match, m.match), m
	}
	if g.Matches != m.matches {
		return fail("Matches = %d, want %d", g.Matches, m.matches), m
	}
	return Result{}, m
}

// Generation.

type grepGen struct {
	t     *rapid.T
	alpha []string
	ascii bool
	expr  string
	hits  []string // texts likely to match
}

func newGrepGen(t *rapid.T) *grepGen {
	g := &grepGen{t: t}
	name := pick(t, alphabetNames, "alphabet")
	g.alpha = alphabets[name]
	g.ascii = asciiAlphabet(name)
	for i := 0; i < 3; i++ {
		g.hits = append(g.hits, genLine(t, g.alpha, 5))
	}
	switch intn(t, 0, 9, "exprkind") {
	case 0:
		g.expr = genRE(t, g.alpha, g.ascii)
	case 1, 2:
		g.expr = pick(t, []string{"", "^", "$", "^$", ".", "a", "x*", "^a", "a$", `\b`, `(?i)k`, `\A`, `\Aa`, `\z`, `a\z`, `[^a]`, `^.$`, `\s`, `a.*b`, `.*`, `^\s*$`}, "stock")
	default:
		g.expr = reFromLine(t, pick(t, g.hits, "hit"), g.alpha)
	}
	if !chance(t, 10, "nomulti") {
		g.expr = "(?m)" + g.expr
	}
	return g
}

func (g *grepGen) line() string {
	t := g.t
	if chance(t, 45, "hitline") {
		h := pick(t, g.hits, "hit")
		switch intn(t, 0, 3, "wrap") {
		case 2:
			h = pick(t, []string{" ", "\t", "  ", "\t\t", " \t"}, "indent") + h
		case 3:
			h += pick(t, []string{" ", "\t", "\r", " \r"}, "trail")
		}
		return h
	}
	if chance(t, 15, "blank") {
		return pick(t, []string{"", " ", "\t", "\r"}, "blankline")
	}
	return genLine(t, g.alpha, 5)
}

func (g *grepGen) lines(max int) string {
	var b strings.Builder
	for n := intn(g.t, 0, max, "nlines"); n > 0; n-- {
		b.WriteString(g.line() + "\n")
	}
	return b.String()
}

// tail is an ending possibly without a newline.
func (g *grepGen) tail() string {
	switch intn(g.t, 0, 3, "tail") {
	case 0:
		return g.line()
	case 1:
		return g.line() + "\n\n"
	}
	return ""
}

const grepBuf = 1 << 20

// filler makes about n bytes of text, exactly n unless n is small.
func (g *grepGen) filler(n, minLine int) []seg {
	t := g.t
	line := strings.Repeat(".", max(minLine, 40)-1) + "\n"
	switch intn(t, 0, 7, "filler") {
	case 7:
		if chance(t, 20, "tiny") {
			line = strings.Repeat(".", max(minLine, intn(t, 1, 4, "tinywidth"))-1) + "\n"
		}
	case 1:
		line = genLine(t, g.alpha, 6) + strings.Repeat(" ", max(minLine, 25)) + "\n"
	case 2:
		line = strings.Repeat("z", max(minLine, intn(t, 30, 300, "width"))) + "\n"
	case 3:
		line = "\t" + strings.Repeat("-", max(minLine, 70)) + "\n"
	case 4:
		line = strings.Repeat("w", max(minLine, intn(t, 1, 30000, "wide"))) + "\n"
	case 5:
		// A single line.
		if n > 1 {
			return []seg{{B(pick(t, []string{"y", "q", ";"}, "longch")), n - 1}, {"\n", 1}}
		}
	}
	if n < len(line) {
		if n <= 0 {
			return nil
		}
		return []seg{{B(strings.Repeat("z", n-1) + "\n"), 1}}
	}
	s := []seg{{B(line), n / len(line)}}
	if r := n % len(line); r > 0 {
		s = append(s, seg{B(strings.Repeat("z", r-1) + "\n"), 1})
	}
	return s
}

// big makes a text whose interesting lines lie near buffer boundaries.
func (g *grepGen) big(minLine int) textSpec {
	t := g.t
	var s textSpec
	if chance(t, 40, "head") {
		s = append(s, seg{T: B(g.lines(4))})
	}
	for k := intn(t, 1, 2, "nbounds"); k > 0; k-- {
		target := (s.size()/grepBuf + 1) * grepBuf
		if chance(t, 20, "half") {
			target -= grepBuf / 2
		}
		target -= intn(t, -20, 60, "delta")
		run := seg{}
		if chance(t, 35, "run") {
			// The same line on both sides of the boundary.
			run.T = B(g.line() + "\n")
			back := intn(t, 1, 2000, "runback")
			run.N = min((back+intn(t, 0, 2000, "runon"))/len(run.T)+1, 1000)
			target -= back
		}
		if n := target - s.size(); n > 0 {
			s = append(s, g.filler(n, minLine)...)
		}
		if run.N > 0 {
			s = append(s, run)
		}
		s = append(s, seg{T: B(g.lines(6))})
	}
	s = append(s, seg{T: B(g.tail())})
	return s
}

func (g *grepGen) small() textSpec {
	s := textSpec{{T: B(genHead(g.t, g.ascii) + g.lines(8))}}
	if chance(g.t, 10, "repeat") {
		s = append(s, seg{B(g.line() + "\n"), intn(g.t, 1, 400, "times")})
	}
	return append(s, seg{T: B(g.tail())})
}

func (g *grepGen) file(big bool, minLine int) grepFile {
	t := g.t
	f := grepFile{Name: B(g.name())}
	if big {
		f.Text = g.big(minLine)
	} else {
		f.Text = g.small()
	}
	switch intn(t, 0, 5, "reader") {
	case 2:
		f.Chunk = 4096
	case 3:
		f.Chunk = intn(t, 1, 7, "chunk")
		if big {
			f.Chunk = intn(t, 1000, 1<<20+1, "bigchunk")
		}
	case 4:
		f.EOF = true
	case 5:
		f.Chunk = intn(t, 1, 100000, "chunk")
		if big {
			f.Chunk += 500
		}
		f.EOF = chance(t, 50, "eof")
	}
	if chance(t, 15, "err") {
		f.Err = pick(t, []string{"disk", "ueof"}, "errkind")
	}
	return f
}

func (g *grepGen) name() string {
	return pick(g.t, []string{"f", "/a/b.go", "x:y", "a b", "naïve", "#1", "%d", "a&b", "q\"'<i>", "dir/x.zip\x01m/n.txt"}, "fname")
}

func genGrepCase(t *rapid.T, bigPct, minLine int) grepCase {
	g := newGrepGen(t)
	c := grepCase{Expr: B(g.expr)}
	big := chance(t, bigPct, "big")
	if big && chance(t, 40, "anchored") {
		h := pick(t, g.hits, "anchoredhit")
		e := ""
		if h != "" && chance(t, 70, "anchoredlit") {
			_, n := utf8.DecodeRuneInString(h)
			e = regexp.QuoteMeta(h[:n])
		}
		c.Expr = B(pick(t, []string{`\A`, `^`, `(?m)\A`, `(?m)^`}, "bot") + e + pick(t, []string{"", "", ".*", `\z`, "$", "(?m)$"}, "eot"))
	}
	n := intn(t, 1, 4, "nfiles")
	if big {
		n = intn(t, 1, 2, "nbigfiles")
	}
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, g.file(big && (i == 0 || chance(t, 30, "bigtoo")), minLine))
	}
	return c
}

func (c *grepCase) drawFlags(t *rapid.T) {
	c.N = chance(t, 45, "n")
	c.H = chance(t, 30, "h")
	c.C = chance(t, 12, "c")
	c.L = chance(t, 10, "l")
}

func genC15(t *rapid.T) grepCase {
	c := genGrepCase(t, 5, 1)
	c.drawFlags(t)
	return c
}

func checkC15(e *Env, c grepCase) Result {
	r, m := checkGrep(c)
	if r.Fail != "" || m == nil {
		return r
	}
	r.Nontrivial = m.matches > 0 && m.lines > m.matches
	labelGrep(&r, m, c)
	return r
}

func labelGrep(r *Result, m *grepModel, c grepCase) {
	if m.deep {
		r.label("match beyond the first MB")
	}
	if m.f.L {
		r.label("-l")
	}
	if m.f.C {
		r.label("-c")
	}
	if m.f.N {
		r.label("-n")
	}
	if m.f.H {
		r.label("-h")
	}
	if m.f.V {
		r.label("-v")
	}
	if m.some > 1 {
		r.label("several files")
	}
	for _, f := range c.Files {
		if f.Err != "" {
			r.label("read error")
			break
		}
	}
}

func genC16(t *rapid.T) grepCase {
	c := genGrepCase(t, 4, 1)
	c.drawFlags(t)
	return c
}

// checkC16 checks both the inverted and the plain selection, and that they
// partition the lines.
func checkC16(e *Env, c grepCase) Result {
	c.V = true
	r, m := checkGrep(c)
	if r.Fail != "" || m == nil {
		return r
	}
	r.Nontrivial = m.matches > 0 && m.lines > m.matches
	labelGrep(&r, m, c)
	if !c.L {
		c.V = false
		r2, m2 := checkGrep(c)
		if r2.Fail != "" {
			return r2
		}
		if m.matches+m2.matches != m.lines {
			infra("model: %d+%d lines selected of %d", m.matches, m2.matches, m.lines)
		}
	}
	return r
}

func genC17(t *rapid.T) grepCase {
	c := genGrepCase(t, 6, 60)
	c.H = chance(t, 30, "h")
	c.N = chance(t, 30, "n")
	ctx := func(label string) int {
		if chance(t, 6, label+"large") {
			return intn(t, 10, 3000, label)
		}
		return intn(t, 0, 4, label)
	}
	c.Pre, c.Post = ctx("pre"), ctx("post")
	if c.Pre+c.Post == 0 {
		c.Post = 1
	}
	if c.Pre+c.Post > 10 {
		// Keep the output within reason.
		for i := range c.Files {
			for j := range c.Files[i].Text {
				s := &c.Files[i].Text[j]
				if len(s.T) < 2000 && s.N > 3 && strings.HasSuffix(string(s.T), "\n") {
					line := strings.TrimSuffix(string(s.T), "\n")
					if s.N*len(s.T) > 100000 {
						line += strings.Repeat("~", 3000)
						s.N = max(1, s.N*len(s.T)/(len(line)+1))
						s.T = B(line + "\n")
					}
				}
			}
		}
	}
	c.V = chance(t, 8, "v")
	c.HTML = chance(t, 10, "html")
	if chance(t, 3, "l") {
		c.L = true
	}
	if chance(t, 3, "c") {
		c.C = true
	}
	return c
}

func checkC17(e *Env, c grepCase) Result {
	if c.Pre+c.Post == 0 {
		return Result{Invalid: true}
	}
	r, m := checkGrep(c)
	if r.Fail != "" || m == nil {
		return r
	}
	r.Nontrivial = m.matches > 0 && m.lines > m.matches && !c.L && !c.C
	labelGrep(&r, m, c)
	if c.Pre > 4 || c.Post > 4 {
		r.label("large context")
	}
	return r
}

func genC18(t *rapid.T) grepCase {
	c := genGrepCase(t, 4, 1)
	g := &grepGen{t: t, alpha: alphabets["ascii"], hits: []string{"a"}}
	for n := intn(t, 0, 4, "more"); n > 0; n-- {
		f := c.Files[intn(t, 0, len(c.Files)-1, "again")]
		if f.Text.size() > 10000 {
			continue
		}
		f.Name = B(g.name())
		c.Files = append(c.Files, f)
	}
	c.drawFlags(t)
	c.HTML = chance(t, 30, "html")
	c.V = chance(t, 10, "v")
	c.StopLimited = chance(t, 60, "stop")
	// Aim the limit at the number of matches.
	lre, err := compileLineRE(string(c.Expr))
	total := 0
	if err == nil {
		m := &grepModel{f: grepFlags{C: true, V: c.V}, re: lre}
		if c.L {
			m.f.L = true
		}
		for _, f := range c.Files {
			if s := f.Text.String(); utf8.ValidString(s) {
				m.file("", s)
			}
		}
		total = m.matches
	}
	switch intn(t, 0, 4, "limit") {
	case 0:
		c.Limit = intn(t, 0, 20, "abs")
	case 1, 2:
		c.Limit = max(0, total-intn(t, -1, 1, "near"))
	default:
		c.Limit = intn(t, 0, total, "within")
	}
	return c
}

func checkC18(e *Env, c grepCase) Result {
	r, m := checkGrep(c)
	if r.Fail != "" || m == nil {
		return r
	}
	r.Nontrivial = c.Limit > 0 && m.matches > 0 && (m.limited || m.matches == c.Limit)
	if m.limited {
		r.label("limited")
	} else if m.matches == c.Limit && c.Limit > 0 {
		r.label("exactly the limit")
	}
	labelGrep(&r, m, c)
	return r
}

// parseLink takes apart a link to a line as it appears in result pages.
var linkRE = regexp.MustCompile(`^/?show/(.*)$`)

func linkTarget(href string) (name, q, frag string, ok bool) {
	m := linkRE.FindStringSubmatch(href)
	if m == nil {
		return "", "", "", false
	}
	u, err := url.Parse("/" + m[1])
	if err != nil {
		return "", "", "", false
	}
	return strings.TrimPrefix(u.Path, "/"), u.Query().Get("q"), u.Fragment, true
}

func init() {
	shape := "texts of generated lines, some with runs placed so that lines of interest lie at multiples of the 1 MB buffer, single lines beyond a buffer, several files through one Grep, read in pieces, with EOF or an error early or late"
	rules["C15"] = shape + ", all of -l -c -n -h; non-trivial: some lines match and some do not"
	rules["C16"] = shape + ", with V set and not set; cgrep runs; non-trivial: some lines match and some do not"
	rules["C17"] = shape + ", contexts 0 to 4 or up to 3000; non-trivial: context printed and not every line matches"
	rules["C18"] = shape + ", limits at, around and within the number of matches, sequences of up to 8 files; non-trivial: the limit was reached exactly or exceeded"
	for _, p := range []string{"C15", "C16", "C17", "C18"} {
		assumptions[p] = []string{"valid UTF-8 texts", "oracle: rune-level NFA over Go's regexp/syntax programs, line by line"}
	}
	one := func(expr string, text ...seg) grepCase {
		return grepCase{Expr: B(expr), Files: []grepFile{{Name: "f", Text: text}}}
	}
	with := func(c grepCase, f func(*grepCase)) grepCase { f(&c); return c }
	reg("C15", "grep", opts{noDir: true, quick: 40000, thorough: 1200000, recycle: 20000}, genC15, checkC15,
		one("(?m)", seg{T: "abc\n"}),
		one("(?m)$", seg{T: "a\n", N: 5}),
		with(one("(?m)a", seg{T: "a\n", N: 5}), func(c *grepCase) { c.C, c.H = true, true }),
		with(one("(?m)a", seg{T: "x", N: 1<<20 + 5}, seg{T: "a\nb\na"}), func(c *grepCase) { c.N = true }),
		with(one("(?m)a$", seg{T: "x", N: 1<<20 - 1}, seg{T: "a\nb\na"}), func(c *grepCase) { c.N = true }),
		grepCase{Expr: "b", N: true, Files: []grepFile{{Name: "f", Text: textSpec{{T: "a\nb\nab"}}, Err: "disk"}, {Name: "g", Text: textSpec{{T: "b"}}, Err: "ueof", EOF: true}}},
	)
	reg("C16", "grep", opts{noDir: true, quick: 30000, thorough: 900000, recycle: 20000}, genC16, checkC16,
		one("(?m)b", seg{T: "a\nb\nc\n"}), one("(?m)", seg{T: "a\nb\n"}))
	reg("C17", "grep", opts{noDir: true, quick: 24000, thorough: 700000, recycle: 20000}, genC17, checkC17,
		with(one("(?m)b", seg{T: "a\nb\nc\nb\n"}), func(c *grepCase) { c.Pre, c.Post = 1, 1 }),
		with(one("(?m)b", seg{T: "aaaa\n", N: 300000}, seg{T: "b\n"}, seg{T: "cccc\n", N: 300000}), func(c *grepCase) { c.Pre, c.Post = 250000, 250000 }))
	reg("C18", "grep", opts{noDir: true, quick: 30000, thorough: 900000, recycle: 20000}, genC18, checkC18,
		with(one("(?m)b", seg{T: "b\n", N: 5}), func(c *grepCase) { c.Limit, c.C = 3, true }))
}
