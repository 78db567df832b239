package main

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	csre "github.com/google/codesearch/regexp"
	"pgregory.net/rapid"
)

// C19 and C20: HTML output and the web server.

// A webServer is a running csweb.
type webServer struct {
	cmd    *exec.Cmd
	log    *ring
	exited chan struct{}
	client *http.Client
}

func (w *world) startWeb(args ...string) *webServer {
	s := &webServer{log: &ring{}, exited: make(chan struct{})}
	argv := limitFiles(fewFiles, append([]string{w.e.tool("csweb")}, args...))
	s.cmd = exec.Command(argv[0], argv[1:]...)
	s.cmd.Dir = w.root
	s.cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, w.env...)
	s.cmd.Stdout, s.cmd.Stderr = s.log, s.log
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(s.cmd.Start())
	go func() {
		s.cmd.Wait()
		close(s.exited)
	}()
	addr := ""
	for i := 0; ; i++ {
		for _, a := range []string{"127.0.0.1:2473", "[::1]:2473"} {
			c, err := net.DialTimeout("tcp", a, time.Second)
			if err == nil {
				c.Close()
				addr = a
			}
		}
		if addr != "" {
			break
		}
		select {
		case <-s.exited:
			infra("csweb did not start: %s", s.log.b)
		case <-time.After(2 * time.Millisecond):
		}
		if i > 20000 {
			s.stop()
			infra("csweb does not listen: %s", s.log.b)
		}
	}
	s.client = &http.Client{
		Timeout: 100 * time.Second,
		Transport: &http.Transport{
			DialContext: func(ctx context.Context, network, _ string) (net.Conn, error) {
				var d net.Dialer
				return d.DialContext(ctx, "tcp", addr)
			},
			MaxIdleConnsPerHost: 16,
		},
	}
	return s
}

func (s *webServer) stop() {
	s.cmd.Process.Kill()
	<-s.exited
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
}

type webReply struct {
	code int
	head http.Header
	body string
}

// get fetches a request target such as "/?q=x".
func (s *webServer) get(target string) (*webReply, string) {
	resp, err := s.client.Get("http://localhost:2473" + target)
	if err != nil {
		dead := ""
		select {
		case <-s.exited:
			dead = "the server has exited; "
		case <-time.After(100 * time.Millisecond):
		}
		if dead == "" && strings.Contains(err.Error(), "Timeout") {
			infra("GET %s: %v", target, err)
		}
		return nil, fmt.Sprintf("GET %s: %v (%sserver log %q)", target, err, dead, clip(string(s.log.b)))
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Sprintf("GET %s: reading: %v", target, err)
	}
	return &webReply{resp.StatusCode, resp.Header, string(b)}, ""
}

// escapePath writes a path as a URL path.
func escapePath(p string) string { return (&url.URL{Path: p}).EscapedPath() }

// HTML oracle: a strict tokenizer that knows the tags the program writes.

type htag struct {
	raw  string
	name string
	attr tagAttrs // decoded
	at   int      // offset in the text so far
}

type tagAttrs [][2]string

func (l tagAttrs) get(name string) string {
	for _, a := range l {
		if a[0] == name {
			return a[1]
		}
	}
	return ""
}

var tagRE = regexp.MustCompile(`^<(!DOCTYPE html|/?[a-z]+)((?: [a-z]+="[^"<>]*")*) ?/?>`)
var attrRE = regexp.MustCompile(` ([a-z]+)="([^"<>]*)"`)

// Tags and attributes the program writes.
var knownTags = map[string]string{
	"!DOCTYPE html": "", "html": "", "head": "", "/head": "", "body": "onload", "p": "", "hr": "", "pre": "", "b": "", "/b": "", "small": "", "/small": "", "title": "", "/title": "",
	"link": "rel type href", "script": "src", "/script": "", "form": "action", "/form": "", "input": "type name value", "a": "href", "/a": "", "span": "id", "/span": "",
	"/pre": "", "/body": "", "/html": "", "/p": "",
}

// untag splits a page into text and tags.
func untag(page string) (text string, tags []htag, bad string) {
	var b strings.Builder
	for page != "" {
		i := strings.IndexByte(page, '<')
		if i < 0 {
			i = len(page)
		}
		b.WriteString(html.UnescapeString(page[:i]))
		page = page[i:]
		if page == "" {
			break
		}
		m := tagRE.FindStringSubmatch(page)
		if m == nil {
			return "", nil, fmt.Sprintf("stray markup %q", clip(page[:min(len(page), 100)]))
		}
		allowed, ok := knownTags[m[1]]
		if !ok {
			return "", nil, fmt.Sprintf("foreign tag %q", m[0])
		}
		t := htag{raw: m[0], name: m[1], at: b.Len()}
		for _, a := range attrRE.FindAllStringSubmatch(m[2], -1) {
			if !strings.Contains(" "+allowed+" ", " "+a[1]+" ") {
				return "", nil, fmt.Sprintf("foreign attribute in %q", m[0])
			}
			t.attr = append(t.attr, [2]string{a[1], html.UnescapeString(a[2])})
		}
		tags = append(tags, t)
		page = page[len(m[0]):]
	}
	return b.String(), tags, ""
}

var plainNameRE = regexp.MustCompile(`^[A-Za-z0-9/._-]*$`)
var plainExprRE = regexp.MustCompile(`^[A-Za-z0-9]*$`)

// okLink reports whether a decoded href leads to line n (0: none) of name, as
// written or with URL escapes.
func okLink(href, name, expr string, n int) bool {
	slash := strings.TrimPrefix(href, "/")
	frag := ""
	if n > 0 {
		frag = fmt.Sprintf("#L%d", n)
	}
	q := ""
	if expr != "" {
		q = "?q=" + expr
	}
	for _, nm := range []string{name, strings.ReplaceAll(name, "#", ">")} {
		if slash == "show/"+nm+q+frag || slash == "show"+nm+q+frag {
			return true
		}
	}
	p, gotq, gotf, ok := linkTarget(href)
	if ok && (p == name || "/"+p == name) && (expr == "" || gotq == expr) && (n == 0 || gotf == fmt.Sprintf("L%d", n)) {
		return true
	}
	// With characters that mean something in URLs, a link may not work, but it
	// still is one attribute.
	return !plainNameRE.MatchString(name) || !plainExprRE.MatchString(strings.TrimPrefix(strings.TrimPrefix(expr, "(?i)"), "(?m)"))
}

// checkFragment compares HTML search output with the plain output of the model.
func checkFragment(out string, c grepCase, files []struct{ name, text string }, lre *lineRE, stderr bool) (string, *grepModel) {
	text, tags, bad := untag(out)
	if bad != "" {
		return bad, nil
	}
	f := c.flags()
	f.HTML = false
	f.N = true
	f.H = f.H && f.Pre+f.Post > 0 && !f.C && !f.L
	m := &grepModel{f: f, re: lre, expr: string(c.Expr)}
	for _, x := range files {
		m.file(x.name, x.text)
	}
	if d := m.out.diff(text); d != "" {
		return "decoded " + d, m
	}
	want := []string{}
	if f.L || f.C || f.Pre+f.Post == 0 {
		// One link per line of output, around the name.
		n := len(tags)
		if n%2 != 0 {
			return fmt.Sprintf("%d tags", n), m
		}
		for i := 0; i < n; i += 2 {
			if tags[i].name != "a" || tags[i+1].name != "/a" || len(tags[i].attr) != 1 {
				return fmt.Sprintf("unexpected tags %q %q", tags[i].raw, tags[i+1].raw), m
			}
			label := text[tags[i].at:tags[i+1].at]
			ok := false
			for _, x := range files {
				line := 0
				expr := string(c.Expr)
				switch {
				case f.L:
					expr = ""
					if label != x.name {
						continue
					}
				case f.C:
					if label != x.name {
						continue
					}
				default:
					s := strings.TrimPrefix(label, x.name+":")
					var err error
					if line, err = strconv.Atoi(s); err != nil || s == label {
						continue
					}
				}
				if okLink(tags[i].attr.get("href"), x.name, expr, line) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("link %q labelled %q", tags[i].raw, label), m
			}
			want = append(want, label)
		}
		lines := strings.Count(text, "\n") // generated names have none
		if !f.L && !f.C {
			lines = m.matches
		}
		if lines != n/2 {
			return fmt.Sprintf("%d links for %d matches in %d files", n/2, m.matches, m.some), m
		}
	} else if len(tags) > 0 {
		return fmt.Sprintf("unexpected tag %q", tags[0].raw), m
	}
	return "", m
}

var markup = []string{"<", ">", "&", "\"", "'", "<b>", "</pre>", "&lt;", "&amp;", "<script>alert(1)</script>", "<a href=\"x\">", "a", "b", " ", "\t", "&#34;", "=", "x", "é", "-->", "<!--", "/", "\" onclick=\"", "foo", "`", "\\"}

// genC19 makes texts, names and expressions full of markup.
func genC19(t *rapid.T) grepCase {
	g := &grepGen{t: t, alpha: markup}
	for i := 0; i < 3; i++ {
		g.hits = append(g.hits, genLine(t, markup, 4))
	}
	var c grepCase
	switch intn(t, 0, 3, "expr") {
	case 0:
		c.Expr = B(pick(t, []string{"(?m)<", "(?m)", "(?m)&", `(?m)["']`, "(?m)foo|<b>", "(?m)."}, "stock"))
	default:
		c.Expr = B("(?m)" + reFromLine(t, pick(t, g.hits, "hit"), markup))
	}
	for n := intn(t, 1, 3, "nfiles"); n > 0; n-- {
		f := grepFile{Name: B(genMarkupName(t)), Text: g.small()}
		if chance(t, 6, "plain") {
			f.Text = append(genPlain(t), f.Text...)
		}
		if chance(t, 15, "err") {
			f.Err = "html"
		}
		if chance(t, 20, "chunk") {
			f.Chunk = intn(t, 1, 9, "chunk")
		}
		c.Files = append(c.Files, f)
	}
	c.HTML = true
	c.L, c.C, c.N, c.H = chance(t, 12, "l"), chance(t, 15, "c"), chance(t, 20, "n"), chance(t, 20, "h")
	c.V = chance(t, 10, "v")
	if chance(t, 35, "ctx") {
		c.Pre, c.Post = intn(t, 0, 3, "pre"), intn(t, 0, 3, "post")
	}
	if chance(t, 15, "limit") {
		c.Limit = intn(t, 1, 5, "limit")
	}
	return c
}

// genPlain makes a long beginning without markup.
func genPlain(t *rapid.T) textSpec {
	n := 1 << intn(t, 2, 13, "plainlog")
	return textSpec{{pick(t, []B{"plain text\n", "foo ", "a b\n", "x\ty\n"}, "plain"), n + intn(t, 0, n, "plainoff")}}
}

func genMarkupName(t *rapid.T) string {
	s := "/d"
	for n := intn(t, 1, 3, "nname"); n > 0; n-- {
		s += pick(t, []string{"<b>", "a", "&amp;", "\"", "'", "/x", ">", "#", "?q", "%41", " ", "&lt;", "é", ".go", "\\"}, "namepart")
	}
	return s
}

func checkC19(e *Env, c grepCase) Result {
	lre, err := compileLineRE(string(c.Expr))
	if err != nil || !c.HTML {
		return Result{Invalid: true}
	}
	re, err := csre.Compile(string(c.Expr))
	if err != nil {
		return fail("Compile(%q): %v", c.Expr, err)
	}
	var stdout, stderr bytes.Buffer
	g := csre.Grep{Regexp: re, Stdout: &stdout, Stderr: &stderr, L: c.L, C: c.C, N: c.N, H: c.H, V: c.V, HTML: true, PreContext: c.Pre, PostContext: c.Post, Limit: c.Limit}
	var files []struct{ name, text string }
	special := false
	for _, f := range c.Files {
		text := f.Text.String()
		if !utf8.ValidString(text) || usesNoWordBoundary(lre.prog) && !isASCII(text) {
			return Result{Invalid: true}
		}
		er, ok := errText[f.Err]
		if !ok {
			return Result{Invalid: true}
		}
		files = append(files, struct{ name, text string }{string(f.Name), text})
		stderr.Reset()
		g.Reader(&pieceReader{text, f.Chunk, f.EOF, er}, string(f.Name))
		msg, tags, bad := untag(stderr.String())
		if bad != "" || len(tags) > 0 {
			return fail("error message %q: markup (%s)", stderr.String(), bad)
		}
		if msg != "" && msg != string(f.Name)+": "+er.Error()+"\n" {
			return fail("error message %q decodes to %q", stderr.String(), msg)
		}
	}
	bad, m := checkFragment(stdout.String(), c, files, lre, false)
	if bad != "" {
		return fail("%s in output %q", bad, clip(stdout.String()))
	}
	special = strings.ContainsAny(stdout.String(), "&")
	var r Result
	r.Nontrivial = m.matches > 0 && special
	if c.Pre+c.Post > 0 {
		r.label("context")
	}
	if c.C {
		r.label("count")
	}
	return r
}

// Web cases.

type webQuery struct {
	K      string // search, show
	Q, F   B      `json:",omitempty"`
	P      B      `json:",omitempty"` // show: path in the tree
	Follow bool   `json:",omitempty"` // search: follow the first link
}

type webCase struct {
	Deep    int `json:",omitempty"`
	Tree    []tnode
	Gone    []B     `json:",omitempty"`
	Later   []tnode `json:",omitempty"` // archives replaced after indexing
	Queries []webQuery
	Par     int  `json:",omitempty"` // afterwards all at once, so many times
	Verbose bool `json:",omitempty"`
}

func genWeb(t *rapid.T, mark bool) webCase {
	var c webCase
	var g *grepGen
	if mark {
		g = &grepGen{t: t, alpha: markup, ascii: false}
		for i := 0; i < 3; i++ {
			g.hits = append(g.hits, genLine(t, markup, 4))
		}
	} else {
		g = newGrepGen(t)
	}
	c.Deep = genDeep(t, 1000)
	var prev []string
	path := func() string {
		if mark && chance(t, 60, "markname") {
			p := strings.TrimLeft(genMarkupName(t), "/")
			return strings.ReplaceAll(strings.TrimSuffix(p, "~"), "//", "/")
		}
		return genRel(t, 0, prev)
	}
	for n := intn(t, 1, 6, "nfiles"); n > 0; n-- {
		p := path()
		prev = append(prev, p)
		x := tnode{P: B(p), K: "file", T: B(g.small().String())}
		switch intn(t, 0, 11, "filekind") {
		case 9:
			x.T = B(g.lines(3) + pick(t, []string{"\x00", "\xff\xfe", "\r\n<html>\r\n", "\ufffd", "\x1b[0m", "\f"}, "ctl") + g.lines(2))
		case 10:
			x.T = B(pick(t, []string{"<html><script>alert(1)</script>\x00", "<?xml version=\"1.0\"?>\x00<svg onload=x>", "<!DOCTYPE html>\r\n<b>hi</b>\r\n", "GIF89a\x00\x01<b>", "\x89PNG\r\n\x1a\n\x00", "\xfe\xff\x00a"}, "sniff"))
		case 11:
			x.T = B(strings.Repeat(g.line()+"\n", intn(t, 1, 300, "rep")) + g.tail())
		}
		if chance(t, 8, "edge") {
			// Text whose characters straddle the length to which csweb looks.
			n := intn(t, 1012, 1026, "edgelen")
			x.T = B(strings.Repeat("x", n-1-n/64))
			for i := 63; i < len(x.T); i += 64 {
				x.T = x.T[:i] + "\n" + x.T[i:]
			}
			x.T += B(strings.Repeat(pick(t, []string{"\U0001F600", "\u20ac", "\u00e9", "a\U0010ffff", "\U00010000b"}, "edgechar"), intn(t, 1, 5, "edgechars")) + "\n" + g.lines(2))
		}
		if mark && chance(t, 10, "plain") {
			p := genPlain(t)
			x.Tail = B(g.small().String())
			x.T, x.Big = p[0].T, p[0].N
			if p[0].T == "foo " {
				x.Big = min(x.Big, 470)
			}
		}
		if chance(t, 15, "zip") {
			x = tnode{P: B(strings.TrimSuffix(p, "/") + ".zip"), K: "zip"}
			for m := intn(t, 1, 4, "nmembers"); m > 0; m-- {
				x.Members = append(x.Members, zmember{Name: B(pick(t, zipNames, "member")), T: B(g.small().String()), Store: chance(t, 40, "store"), Odd: chance(t, 4, "oddmethod")})
			}
			if chance(t, 25, "later") {
				// After indexing, some of it is no longer there.
				c.Later = append(c.Later, tnode{P: x.P, K: "zip"})
				for _, m := range x.Members {
					if chance(t, 50, "keep") {
						m.Odd = m.Odd || chance(t, 20, "oddlater")
						c.Later[len(c.Later)-1].Members = append(c.Later[len(c.Later)-1].Members, m)
					}
				}
				if chance(t, 20, "junk") {
					c.Later[len(c.Later)-1] = tnode{P: x.P, K: "file", T: "PK\x03\x04 not a zip file\n"}
				}
			}
		}
		if chance(t, 2, "many") {
			x = tnode{P: B(p), K: "many", T: "f", Many: manyFiles(t, 11)}
		}
		if x.K == "file" && chance(t, 1, "huge") {
			x = tnode{P: B(p), K: "file", T: B("a\nsome words " + strings.Repeat(pick(t, []string{"-", "<", "ab"}, "fill"), 40) + "\n"), Tail: tailLine}
			x.Big = min(min(bigSize(t), 4<<20)/len(x.T), nameBound(c.Deep))
		}
		c.Tree = append(c.Tree, x)
		if chance(t, 5, "gone") {
			c.Gone = append(c.Gone, B(p))
		}
	}
	for n := intn(t, 1, 8, "nqueries"); n > 0; n-- {
		var q webQuery
		switch intn(t, 0, 9, "qkind") {
		case 0, 1, 2:
			q.K = "show"
			p := pick(t, prev, "shown")
			for k := intn(t, 0, 3, "up") - 1; k > 0; k-- {
				p = parentOf(p)
			}
			if chance(t, 8, "missing") {
				p += pick(t, []string{"zz", "<b>", "\"x", "&amp;"}, "missingsuffix")
			}
			q.P = B(p)
		default:
			q.K = "search"
			switch intn(t, 0, 9, "expr") {
			case 0:
				q.Q = B(pick(t, append([]string{"(<b>", "<b>[", "*&", "\"", "(?z)<i>", "\xff", "a\x80<", "[z-a]<b>", "\\8&lt;", "x{1001}<b>"}, oddExprs...), "oddexpr"))
			case 1:
				q.Q = B(pick(t, []string{"", ".", "^", "a|b", "zzzzz", "$"}, "stock"))
			case 2:
				q.Q = B(strings.TrimPrefix(g.expr, "(?m)"))
			case 3:
				q.Q = tailExpr
			default:
				q.Q = B(reFromLine(t, pick(t, g.hits, "hit"), g.alpha))
			}
			if chance(t, 30, "f") {
				p := pick(t, prev, "fprev")
				switch intn(t, 0, 4, "fkind") {
				case 0:
					q.F = B(quoteRE(p) + "$")
				case 1:
					q.F = B(pick(t, []string{"(<b>", "[", "nomatch$", "^/", `\.go$`, "&(", "\xff"}, "fstock"))
				default:
					q.F = B(reFromLine(t, filepath.Base(p), cliElems))
				}
			}
			if len(c.Queries) > 0 && chance(t, 30, "near") {
				// Almost a query asked before.
				if old := pick(t, c.Queries, "nearto"); old.K == "search" {
					switch q.F = old.F; {
					case q.F != "" && chance(t, 60, "nearf"):
						q.Q, q.F = old.Q, B(nearExpr(t, string(old.F)))
					case chance(t, 30, "otherq"):
						// Another query with the same filter.
					default:
						q.Q = B(nearExpr(t, string(old.Q)))
					}
				}
			}
			q.Follow = chance(t, 30, "follow")
		}
		c.Queries = append(c.Queries, q)
	}
	if chance(t, 30, "par") {
		c.Par = intn(t, 1, 4, "partimes")
	}
	c.Verbose = chance(t, 15, "verbose")
	return c
}

// nearExpr returns an expression much like expr that may well mean something else.
func nearExpr(t *rapid.T, expr string) string {
	switch intn(t, 0, 6, "nearkind") {
	case 0, 1:
		return strings.ToUpper(expr)
	case 2:
		return strings.ToLower(expr)
	case 3:
		return "(?i)" + strings.TrimPrefix(expr, "(?i)")
	case 4:
		return expr + pick(t, []string{" ", "?", "$", "+", "|", ".", "a"}, "nearend")
	case 5:
		return pick(t, []string{" ", "^", ".", "(?s)"}, "nearstart") + expr
	}
	_, n := utf8.DecodeLastRuneInString(expr)
	return expr[:len(expr)-n]
}

var matchesRE = regexp.MustCompile(`\n(\d+) matches in \d+\.\d+s\n(more matches not shown due to match limit\n)?$`)

// A webCheck judges the replies of one server over one tree.
type webCheck struct {
	w     *world
	s     *webServer
	names []string
	st    *mstate
	mu    sync.Mutex
	found int
	shown int
	esc   int
	errs  int
	zips  map[string]*zipModel // by content

	served map[string]bool // what pages refer to and has been fetched
}

// bodyOf returns the text of a page after its <pre> tag, its other tags after
// that, and the tags before.
func splitPage(page string) (text string, head, tags []htag, bad string) {
	i := strings.Index(page, "<pre>")
	if i < 0 {
		return "", nil, nil, "no <pre> in the page"
	}
	_, head, bad = untag(page[:i])
	if bad != "" {
		return "", nil, nil, "head: " + bad
	}
	text, tags, bad = untag(strings.TrimPrefix(page[i+len("<pre>"):], "\n"))
	return text, head, tags, bad
}

// textOf returns the present text of an indexed file or archive member.
func (k *webCheck) textOf(name string) (string, bool) {
	file, member, isZip := strings.Cut(name, "\x01")
	x := k.w.nodes[strings.TrimPrefix(file, k.w.root+"/")]
	if x == nil {
		return "", false
	}
	if !isZip {
		return x.Text, true
	}
	z := k.zips[x.Text]
	if z == nil || !z.valid {
		return "", false
	}
	text, ok := z.text[member]
	return text, ok
}

func (k *webCheck) query(q webQuery) string {
	if q.K == "show" {
		return k.show(string(q.P))
	}
	return k.search(q)
}

// assets fetches what a page refers to.
func (k *webCheck) assets(base string, head []htag) string {
	from, err := url.Parse(base)
	must(err)
	for _, t := range head {
		ref := ""
		switch t.name {
		case "link":
			ref = t.attr.get("href")
		case "script":
			ref = t.attr.get("src")
		}
		if ref == "" {
			continue
		}
		u, err := from.Parse(ref)
		if err != nil || u.Host != "" {
			continue
		}
		k.mu.Lock()
		seen := k.served[u.Path]
		if k.served == nil {
			k.served = map[string]bool{}
		}
		k.served[u.Path] = true
		k.mu.Unlock()
		if seen {
			continue
		}
		p, bad := k.s.get(u.RequestURI())
		if bad != "" {
			return bad
		}
		if p.code != 200 {
			return fmt.Sprintf("the page refers to %q, which is answered with status %d", ref, p.code)
		}
		if c := p.head.Get("Content-Type"); t.name == "link" && !strings.HasPrefix(c, "text/css") || t.name == "script" && !strings.Contains(c, "javascript") {
			return fmt.Sprintf("the page refers to %q, which is served as %q", ref, c)
		}
	}
	return ""
}

func (k *webCheck) search(q webQuery) string {
	target := "/?q=" + url.QueryEscape(string(q.Q))
	if q.F != "" {
		target += "&f=" + url.QueryEscape(string(q.F))
	}
	p, bad := k.s.get(target)
	if bad != "" {
		return bad
	}
	wrong := func(format string, args ...any) string {
		return fmt.Sprintf("search q=%q f=%q: %s; page ends %q", q.Q, q.F, fmt.Sprintf(format, args...), clip(p.body[strings.Index(p.body, "<pre>")+1:]))
	}
	if p.code != 200 {
		return wrong("status %d", p.code)
	}
	if !strings.HasPrefix(p.head.Get("Content-Type"), "text/html") {
		return wrong("content type %q", p.head.Get("Content-Type"))
	}
	text, head, tags, bad := splitPage(p.body)
	if bad != "" {
		return wrong("%s", bad)
	}
	if bad := k.assets("/", head); bad != "" {
		return wrong("%s", bad)
	}
	val := "none"
	for _, t := range head {
		if t.name == "input" && t.attr.get("name") == "q" {
			val = t.attr.get("value")
		}
	}
	if val != string(q.Q) {
		return wrong("the form shows query %q", val)
	}
	if q.Q == "" {
		if text != "" || len(tags) > 0 {
			return wrong("output without a query")
		}
		return ""
	}
	pat := "(?m)" + string(q.Q)
	lre, err := compileLineRE(pat)
	var fre *lineRE
	if err == nil && q.F != "" {
		fre, err = compileLineRE(string(q.F))
	}
	if err != nil {
		if se, ok := err.(*syntax.Error); ok && !strings.Contains(text, se.Error()) || len(tags) > 0 {
			return wrong("error text %q, want %q", text, err)
		}
		if matchesRE.MatchString(text) {
			return wrong("results for an invalid expression")
		}
		k.mu.Lock()
		k.errs++
		k.mu.Unlock()
		return ""
	}
	if usesNoWordBoundary(lre.prog) || fre != nil && usesNoWordBoundary(fre.prog) {
		return ""
	}
	total := matchesRE.FindStringSubmatch(text)
	if total == nil {
		return wrong("no total")
	}
	m := &grepModel{f: grepFlags{N: true, Limit: 100000}, re: lre, expr: pat}
	type link struct {
		name string
		line int
	}
	var links []link
	for _, n := range k.names {
		if m.limited {
			break
		}
		if fre != nil && fre.firstMatch(n, true, true) < 0 {
			continue
		}
		text, ok := k.textOf(n)
		if !ok {
			continue
		}
		m.file(n, text)
		for _, i := range lre.matchingLines(text) {
			links = append(links, link{n, i + 1})
		}
	}
	if d := m.out.diff(strings.TrimSuffix(text, total[0])); d != "" {
		return wrong("decoded results: %s", d)
	}
	if total[1] != strconv.Itoa(m.matches) {
		return wrong("total %s, want %d", total[1], m.matches)
	}
	if (total[2] != "") != m.limited {
		return wrong("limited %v, want %v", total[2] != "", m.limited)
	}
	if len(tags) != 2*m.matches {
		return wrong("%d tags for %d matches", len(tags), m.matches)
	}
	for i := 0; i < m.matches; i++ {
		a, b := tags[2*i], tags[2*i+1]
		l := links[i]
		if a.name != "a" || b.name != "/a" || text[a.at:b.at] != fmt.Sprintf("%s:%d", l.name, l.line) || !okLink(a.attr.get("href"), l.name, pat, l.line) {
			return wrong("link %q labelled %q, want one to %q line %d", a.raw, text[a.at:b.at], l.name, l.line)
		}
	}
	k.mu.Lock()
	if m.matches > 0 {
		k.found++
	}
	if strings.Contains(p.body, "&lt;") || strings.Contains(p.body, "&amp;") || strings.Contains(p.body, "&#3") {
		k.esc++
	}
	k.mu.Unlock()
	if q.Follow && len(tags) > 0 && plainNameRE.MatchString(links[0].name) && plainExprRE.MatchString(string(q.Q)) {
		href := tags[0].attr.get("href")
		target, frag, _ := strings.Cut(href, "#")
		p2, bad := k.s.get(target)
		if bad != "" {
			return bad
		}
		if strings.Contains(links[0].name, "\x01") {
			return "" // members cannot be shown
		}
		x := k.w.nodes[strings.TrimPrefix(links[0].name, k.w.root+"/")]
		if p2.code != 200 {
			return wrong("the link %q leads to status %d", href, p2.code)
		}
		if frag != fmt.Sprintf("L%d", links[0].line) {
			return wrong("the link %q does not name line %d", href, links[0].line)
		}
		if viewKind(x.Text) == viewText && !strings.Contains(p2.body, `id="`+frag+`"`) {
			return wrong("the link %q leads to a page without that line", href)
		}
	}
	return ""
}

const (
	viewText = iota
	viewRaw
	viewEither
)

// viewKind says how a file is to be shown.
func viewKind(text string) int {
	head := text[:min(len(text), 1000)]
	if i := strings.IndexByte(head, 0); i >= 0 && i < len(text)-8 {
		return viewRaw
	}
	for i, c := range head {
		if c == utf8.RuneError {
			if _, n := utf8.DecodeRuneInString(head[i:]); n == 1 && i < len(head)-8 {
				return viewRaw
			}
		}
	}
	if !utf8.ValidString(text) || strings.ContainsRune(text, utf8.RuneError) {
		return viewEither
	}
	for _, c := range text {
		if c < ' ' && c != '\n' && c != '\t' && c != '\f' {
			return viewEither
		}
	}
	return viewText
}

var lineTextRE = regexp.MustCompile(`^ *(\d+)  `)

func (k *webCheck) show(rel string) string {
	if rel != "" && !validRel(rel) {
		return ""
	}
	abs := k.w.abs(rel)
	p, bad := k.s.get("/show" + escapePath(abs))
	if bad != "" {
		return bad
	}
	wrong := func(format string, args ...any) string {
		return fmt.Sprintf("show %q: %s; status %d %v page %q", abs, fmt.Sprintf(format, args...), p.code, p.head, clip(p.body))
	}
	ctype := p.head.Get("Content-Type")
	x := k.w.nodes[rel]
	if x == nil {
		if p.code == 200 {
			return wrong("success for a missing file")
		}
		if strings.HasPrefix(ctype, "text/html") {
			if _, tags, bad := untag(p.body); bad != "" || len(tags) > 0 {
				return wrong("markup in an error message: %s", bad)
			}
		} else if !strings.HasPrefix(ctype, "text/plain") {
			return wrong("error message of type %q", ctype)
		}
		return ""
	}
	if p.code != 200 {
		return wrong("failed")
	}
	isHTML := strings.HasPrefix(ctype, "text/html") && strings.Contains(p.body, "<pre>")
	if x.Kind == "file" {
		kind := viewKind(x.Text)
		raw := p.body == x.Text
		if raw && (kind != viewText || !isHTML) && !strings.HasPrefix(ctype, "text/html") && !strings.Contains(ctype, "xml") {
			if kind == viewText {
				return wrong("text file not shown as text with line numbers")
			}
			k.mu.Lock()
			k.shown++
			k.mu.Unlock()
			return ""
		}
		if raw && x.Text != "" && kind != viewText {
			return wrong("the file's bytes are sent as markup")
		}
		if kind == viewRaw {
			return wrong("want the file's bytes")
		}
	}
	if !isHTML {
		return wrong("not a page")
	}
	text, head, tags, bad := splitPage(p.body)
	if bad != "" {
		return wrong("%s", bad)
	}
	if bad := k.assets("/show"+escapePath(abs), head); bad != "" {
		return wrong("%s", bad)
	}
	// Title: text between the title tags lies before <pre>.
	pre, _, _ := untag(p.body[:strings.Index(p.body, "<pre>")])
	if !strings.Contains(pre, abs) {
		return wrong("title %q", pre)
	}
	i := strings.Index(text, "\n\n")
	if i < 0 {
		return wrong("no header")
	}
	if h := text[:i]; !strings.Contains(strings.ReplaceAll(h, "//", "/"), abs) {
		return wrong("header %q", h)
	}
	body, base := text[i+2:], i+2
	rest := tags
	for len(rest) > 0 && rest[0].at < base {
		rest = rest[1:]
	}
	// Links from the header lead to the directories above.
	for j := 0; j+1 < len(tags) && tags[j+1].at < base; j++ {
		if tags[j].name != "a" || tags[j+1].name != "/a" {
			continue
		}
		label := text[tags[j].at:tags[j+1].at]
		href, ok := strings.CutPrefix(tags[j].attr.get("href"), "/show/")
		if !ok || !plainNameRE.MatchString(href) {
			continue
		}
		href = path.Clean("/" + href)
		if path.Base(href) != label && label != "" || href != abs && href != "/" && !strings.HasPrefix(abs, href+"/") {
			return wrong("header link %q labelled %q", tags[j].raw, label)
		}
	}
	if x.Kind == "dir" {
		var want []string
		for q := range k.w.nodes {
			if q != "" && parentOf(q) == rel {
				want = append(want, filepath.Base(q))
			}
		}
		sort.Strings(want)
		var got []string
		for len(rest) > 0 && rest[0].name == "/a" {
			rest = rest[1:]
		}
		for j := 0; j+1 < len(rest); j += 2 {
			if rest[j].name != "a" || rest[j+1].name != "/a" {
				return wrong("unexpected tags %q %q", rest[j].raw, rest[j+1].raw)
			}
			label := text[rest[j].at:rest[j+1].at]
			got = append(got, label)
			if !okLink(rest[j].attr.get("href"), abs+"/"+label, "", 0) {
				return wrong("link %q for entry %q", rest[j].raw, label)
			}
		}
		sort.Strings(got)
		if !eqStrings(got, want) {
			return wrong("entries %q, want %q", got, want)
		}
		if strings.Join(got, "") != strings.ReplaceAll(sortedLines(body), "\n", "") {
			return wrong("listing text %q", body)
		}
		k.mu.Lock()
		k.shown++
		k.mu.Unlock()
		return ""
	}
	lines := splitLines(x.Text)
	n := 0
	for j := 0; j < len(rest); j++ {
		t := rest[j]
		if t.name == "/small" || t.name == "/a" && n == 0 {
			continue
		}
		if t.name != "span" || j+1 >= len(rest) || rest[j+1].name != "/span" {
			return wrong("unexpected tag %q after line %d", t.raw, n)
		}
		s := text[t.at:rest[j+1].at]
		j++
		n++
		if n > len(lines) {
			return wrong("more lines than the %d in the file", len(lines))
		}
		m := lineTextRE.FindStringSubmatch(s)
		if t.attr.get("id") != fmt.Sprintf("L%d", n) || m == nil || m[1] != strconv.Itoa(n) || strings.TrimSuffix(s[len(m[0]):], "\n") != lines[n-1].text {
			return wrong("line %d shown as %q with tag %q, want %q", n, s, t.raw, lines[n-1].text)
		}
	}
	if n != len(lines) {
		return wrong("%d lines shown of %d", n, len(lines))
	}
	k.mu.Lock()
	k.shown++
	if strings.Contains(p.body, "&lt;") || strings.Contains(p.body, "&amp;") || strings.Contains(p.body, "&#3") {
		k.esc++
	}
	k.mu.Unlock()
	return ""
}

func sortedLines(s string) string {
	l := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func checkWeb(e *Env, c webCase) (Result, *webCheck) {
	var r Result
	w := newWorld(e, deepSub("w", c.Deep))
	for i := range c.Tree {
		if !validRel(string(c.Tree[i].P)) || !validName(string(c.Tree[i].P)) {
			return Result{Invalid: true}, nil
		}
	}
	zips := map[string]*zipModel{}
	archives := func(tree []tnode) bool {
		for i := range tree {
			if n := &tree[i]; n.K == "zip" {
				for _, m := range n.Members {
					if !validName(string(m.Name)) || m.Bad || strings.HasSuffix(string(m.Name), "/") {
						return false
					}
				}
				data := string(makeZip(n.Members))
				z, ok := modelZip(n.Members)
				if !ok {
					return false
				}
				zips[data] = &z
				if !strings.HasSuffix(string(n.P), ".zip") {
					return false
				}
			} else if strings.HasSuffix(string(n.P), ".zip") && len(c.Later) == 0 {
				return false
			}
		}
		w.build(tree)
		return true
	}
	if !archives(c.Tree) {
		return Result{Invalid: true}, nil
	}
	st, ok := w.indexState([]string{w.root})
	if !ok {
		return Result{Invalid: true}, nil
	}
	args := []string{w.root}
	if len(zips) > 0 {
		args = []string{"-zip", w.root}
		for p, n := range w.nodes {
			z := zips[n.Text]
			if n.Kind != "file" || !strings.HasSuffix(p, ".zip") {
				continue
			}
			if z == nil {
				return Result{Invalid: true}, nil
			}
			delete(st.files, w.abs(p))
			visible := false
			for _, q := range w.walk("") {
				visible = visible || q == p
			}
			if !visible {
				continue
			}
			for m, text := range z.text {
				st.files[w.abs(p)+"\x01"+m] = text
				r.label("archive member")
			}
		}
	}
	for _, text := range st.files {
		if !utf8.ValidString(text) {
			return Result{Invalid: true}, nil
		}
	}
	if p := w.run("cindex", args...); p.Code != 0 {
		return fail("cindex: %v", p), nil
	}
	for _, n := range c.Later {
		old := w.nodes[string(n.P)]
		if old == nil || old.Kind != "file" {
			return Result{Invalid: true}, nil
		}
		// Members must not have other contents than those indexed.
		if n.K == "zip" {
			z, ok := modelZip(n.Members)
			was := zips[old.Text]
			if !ok || was == nil {
				return Result{Invalid: true}, nil
			}
			for m, text := range z.text {
				if before, ok := was.text[m]; ok && before != text {
					return Result{Invalid: true}, nil
				}
			}
			// A member that was not text when it was indexed, or not readable, is not searched.
		}
	}
	if !archives(c.Later) {
		return Result{Invalid: true}, nil
	}
	for _, g := range c.Gone {
		w.remove(string(g))
	}
	var args2 []string
	if c.Verbose {
		args2 = append(args2, "-verbose")
		r.label("csweb -verbose")
	}
	k := &webCheck{w: w, s: w.startWeb(args2...), st: st, names: sortedNames(st.files), zips: zips}
	defer k.s.stop()
	for i, q := range c.Queries {
		if bad := k.query(q); bad != "" {
			return fail("query %d: %s", i, bad), k
		}
	}
	if c.Par > 0 {
		var wg sync.WaitGroup
		res := make([]string, c.Par*len(c.Queries))
		panics := make([]any, len(res))
		for i := range res {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { panics[i] = recover() }()
				res[i] = k.query(c.Queries[i%len(c.Queries)])
			}()
		}
		wg.Wait()
		for i := range res {
			if panics[i] != nil {
				panic(panics[i])
			}
			if res[i] != "" {
				return fail("concurrently: %s", res[i]), k
			}
		}
		r.label("concurrent")
	}
	if k.found > 0 {
		r.label("found")
	}
	if k.shown > 0 {
		r.label("shown")
	}
	if k.errs > 0 {
		r.label("error message")
	}
	if k.esc > 0 {
		r.label("escapes")
	}
	return r, k
}

func checkC20(e *Env, c webCase) Result {
	r, k := checkWeb(e, c)
	r.Nontrivial = r.Nontrivial || k != nil && k.found > 0
	return r
}

func checkC19Web(e *Env, c webCase) Result {
	r, k := checkWeb(e, c)
	r.Nontrivial = r.Nontrivial || k != nil && k.esc > 0
	return r
}

// c20Endure asks a server the same few questions very often.
type c20Endure struct {
	Queries []webQuery
	Times   int
}

func checkC20Endure(e *Env, c c20Endure) Result {
	w := newWorld(e, "w")
	w.put("a/b.go", node{Kind: "file", Text: "foo\nbar\n"})
	members := []zmember{{Name: "m", T: "foo\nzip\n"}, {Name: "n", T: "zip\n"}}
	data := string(makeZip(members))
	z, _ := modelZip(members)
	w.put("a/z.zip", node{Kind: "file", Text: data})
	st, _ := w.indexState([]string{w.root})
	for m, text := range z.text {
		st.files[w.abs("a/z.zip")+"\x01"+m] = text
	}
	if p := w.run("cindex", "-zip", w.root); p.Code != 0 {
		return fail("cindex: %v", p)
	}
	k := &webCheck{w: w, s: w.startWeb(), st: st, names: sortedNames(st.files), zips: map[string]*zipModel{data: &z}}
	defer k.s.stop()
	const par = 8
	var wg sync.WaitGroup
	res := make([]string, par)
	panics := make([]any, par)
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			for n := i; n < c.Times && res[i] == ""; n += par {
				q := c.Queries[n%len(c.Queries)]
				if bad := k.query(q); bad != "" {
					res[i] = fmt.Sprintf("after about %d queries: %s", n, bad)
				}
			}
		}()
	}
	wg.Wait()
	for i := range res {
		if panics[i] != nil {
			panic(panics[i])
		}
		if res[i] != "" {
			return fail("%s", res[i])
		}
	}
	return Result{Nontrivial: true, Labels: []string{"endurance"}}
}

// A server that runs while the tree and the index change.

type c20Live struct {
	Tree []tnode
	Ops  []liveOp
}

type liveOp struct {
	K     string   // query, write, rm, mv, index, reset
	Q     webQuery `json:",omitempty"`
	P, To B        `json:",omitempty"`
	T     B        `json:",omitempty"`
	Par   int      `json:",omitempty"` // query: so many at once
}

func genC20Live(t *rapid.T) c20Live {
	base := genWeb(t, false)
	var c c20Live
	var prev []string
	texts := map[string]string{}
	for _, n := range base.Tree {
		if n.K != "file" && n.K != "many" {
			continue
		}
		c.Tree = append(c.Tree, n)
		prev = append(prev, string(n.P))
		if n.K == "file" && n.Big == 0 {
			texts[string(n.P)] = string(n.T)
		}
	}
	for n := intn(t, 3, 14, "nops"); n > 0; n-- {
		p := genRel(t, 0, prev)
		if chance(t, 70, "known") && len(prev) > 0 {
			p = pick(t, prev, "prev")
		}
		switch intn(t, 0, 9, "op") {
		case 0, 1:
			text := ""
			if len(texts) > 0 && chance(t, 60, "variant") {
				// As long as what some file holds.
				old := texts[p]
				if old == "" {
					old = texts[pick(t, prev, "textof")]
				}
				text = variant(t, old)
			} else {
				text = genCliText(t)
			}
			texts[p] = text
			prev = append(prev, p)
			c.Ops = append(c.Ops, liveOp{K: "write", P: B(p), T: B(text)})
		case 2:
			c.Ops = append(c.Ops, liveOp{K: "rm", P: B(p)})
		case 3:
			q := genRel(t, 0, prev)
			prev = append(prev, q)
			c.Ops = append(c.Ops, liveOp{K: "mv", P: B(p), To: B(q)})
		case 4, 5:
			c.Ops = append(c.Ops, liveOp{K: pick(t, []string{"index", "index", "reset"}, "how")})
		default:
			q := pick(t, base.Queries, "query")
			if q.K == "search" && chance(t, 30, "stock") {
				q.Q = B(pick(t, []string{"foo", "a", "", "b$", "abc"}, "stockexpr"))
			}
			c.Ops = append(c.Ops, liveOp{K: "query", Q: q, Par: intn(t, 0, 2, "par")})
		}
	}
	for _, q := range base.Queries {
		c.Ops = append(c.Ops, liveOp{K: "query", Q: q})
	}
	return c
}

// variant replaces a letter or two.
func variant(t *rapid.T, s string) string {
	b := []byte(s)
	for n := intn(t, 1, 2, "nletters"); n > 0 && len(b) > 0; n-- {
		if i := intn(t, 0, len(b)-1, "letter"); b[i] < 0x80 {
			b[i] = pick(t, []byte{'a', 'b', 'f', 'o', ' ', '\n'}, "for")
		}
	}
	return string(b)
}

func checkC20Live(e *Env, c c20Live) Result {
	var r Result
	w := newWorld(e, "w")
	for i := range c.Tree {
		if n := &c.Tree[i]; !validRel(string(n.P)) || !validName(string(n.P)) || n.K != "file" && n.K != "many" {
			return Result{Invalid: true}
		}
	}
	w.build(c.Tree)
	var k *webCheck
	index := func(args ...string) Result {
		st, ok := w.indexState([]string{w.root})
		if !ok {
			return Result{Invalid: true}
		}
		for _, text := range st.files {
			if !utf8.ValidString(text) {
				return Result{Invalid: true}
			}
		}
		if p := w.run("cindex", args...); p.Code != 0 {
			return fail("cindex %q: %v", args, p)
		}
		if k == nil {
			k = &webCheck{w: w, s: w.startWeb()}
		}
		k.st, k.names = st, sortedNames(st.files)
		return Result{}
	}
	if r := index(w.root); r.Invalid || r.Fail != "" {
		return r
	}
	defer k.s.stop()
	changes := 0
	for i, op := range c.Ops {
		switch op.K {
		case "write":
			if validRel(string(op.P)) && validName(string(op.P)) {
				w.put(string(op.P), node{Kind: "file", Text: string(op.T)})
			}
		case "rm":
			w.remove(string(op.P))
		case "mv":
			if validName(string(op.To)) {
				w.move(string(op.P), string(op.To))
			}
		case "index", "reset":
			args := []string{}
			if op.K == "reset" {
				args = []string{"-reset", w.root}
			}
			if r := index(args...); r.Invalid || r.Fail != "" {
				return r
			}
			changes++
		case "query":
			if op.Q.K != "show" {
				for n, text := range k.st.files {
					if x := w.nodes[strings.TrimPrefix(n, w.root+"/")]; x != nil && (x.Kind != "file" || x.Text != text) {
						// Results are specified for an index that is up to date.
						if r := index(); r.Invalid || r.Fail != "" {
							return r
						}
						changes++
						break
					}
				}
			}
			if op.Par < 2 {
				if bad := k.query(op.Q); bad != "" {
					return fail("op %d: %s", i, bad)
				}
				break
			}
			res := make([]string, op.Par)
			panics := make([]any, op.Par)
			var wg sync.WaitGroup
			for j := range res {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { panics[j] = recover() }()
					res[j] = k.query(op.Q)
				}()
			}
			wg.Wait()
			for j := range res {
				if panics[j] != nil {
					panic(panics[j])
				}
				if res[j] != "" {
					return fail("op %d, concurrently: %s", i, res[j])
				}
			}
		default:
			return Result{Invalid: true}
		}
	}
	r.Nontrivial = changes > 0 && k.found > 0
	if changes > 0 {
		r.label("index changes")
	}
	return r
}

// C19 through csearch -html.
func checkC19CLI(e *Env, c grepCase) Result {
	lre, err := compileLineRE(string(c.Expr))
	if err != nil || c.V || c.Limit != 0 || !strings.HasPrefix(string(c.Expr), "(?m)") {
		return Result{Invalid: true}
	}
	w := newWorld(e, "w")
	seen := map[string]bool{}
	for _, f := range c.Files {
		p := strings.Trim(strings.ReplaceAll(string(f.Name), "//", "/"), "/~")
		text := f.Text.String()
		if !validRel(p) || !validName(p) || seen[p] || !utf8.ValidString(text) || usesNoWordBoundary(lre.prog) && !isASCII(text) {
			return Result{Invalid: true}
		}
		seen[p] = true
		w.put(p, node{Kind: "file", Text: text})
	}
	st, ok := w.indexState([]string{w.root})
	if !ok {
		return Result{Invalid: true}
	}
	if p := w.run("cindex", w.root); p.Code != 0 {
		return fail("cindex: %v", p)
	}
	var files []struct{ name, text string }
	for _, n := range sortedNames(st.files) {
		files = append(files, struct{ name, text string }{n, st.files[n]})
	}
	tf := toolFlags{L: c.L, C: c.C, N: c.N, H: c.H, A: c.Post, B: c.Pre}
	args := append(tf.args(e), "-html", "--", strings.TrimPrefix(string(c.Expr), "(?m)"))
	p := w.run("csearch", args...)
	bad, m := checkFragment(string(p.Out), c, files, lre, false)
	if bad != "" {
		return fail("csearch %q: %s; %v", args, bad, p)
	}
	return Result{Nontrivial: m.matches > 0 && strings.Contains(string(p.Out), "&")}
}

var _ = os.Stat

func init() {
	rules["C19"] = "texts, file names and expressions made of markup tokens, through Grep, csearch -html and csweb (searches, invalid queries, file, directory and missing-file views, files that look like HTML to a browser, markup after long plain beginnings); pages are split by a strict tokenizer that knows only the program's own tags, decoded, and compared with the plain text; non-trivial: something was found and escaped"
	assumptions["C19"] = []string{"links to names with URL metacharacters need only be well-formed attributes"}
	rules["C20"] = "a tree of 1-6 files and archives (also huge files, directories of many entries, paths of up to 1000 bytes), some changed or removed since indexing, csweb serving it, 1-8 requests (searches with and without file filter, invalid queries, file, directory and missing views, links followed) under a limit of 256 open files, then all at once several times; 66000 searches by one server; one server that keeps running while files change and the tree is indexed again; totals beyond the limit of 100000; non-trivial: a search found something"
	assumptions["C20"] = []string{"files unchanged or removed since indexing; a text with control characters or U+FFFD may be shown either way"}
	reg("C19", "fragment", opts{noDir: true, quick: 60000, thorough: 2000000, recycle: 20000}, genC19, checkC19,
		grepCase{Expr: "(?m)b", HTML: true, Pre: 1, Post: 1, Files: []grepFile{{Name: "<f>", Text: textSpec{{T: "<a>\nb<script>\n&lt;\n"}}}}},
		grepCase{Expr: "(?m)<", HTML: true, C: true, Files: []grepFile{{Name: "<f>", Text: textSpec{{T: "<a>\nb<script>\n&lt;\n"}}, Err: "html"}}})
	reg("C19", "csearch", opts{quick: 6000, thorough: 150000, recycle: 2000}, func(t *rapid.T) grepCase {
		c := genC19(t)
		c.V, c.Limit = false, 0
		return c
	}, checkC19CLI)
	reg("C19", "web", opts{quick: 2400, thorough: 60000, recycle: 400, netns: true}, func(t *rapid.T) webCase { return genWeb(t, true) }, checkC19Web,
		webCase{Tree: []tnode{{P: "<b>", K: "file", T: "<html><script>alert(1)</script>\x00"}, {P: "x&amp;", K: "file", T: "<i>\n"}}, Queries: []webQuery{{K: "search", Q: "(<b>"}, {K: "search", Q: "a", F: "[<b>"}, {K: "show", P: "<b>"}, {K: "show", P: "x&amp;"}, {K: "show", P: "<x>"}, {K: "show"}}})
	reg("C20", "web", opts{quick: 8000, thorough: 60000, recycle: 400, netns: true}, func(t *rapid.T) webCase { return genWeb(t, false) }, checkC20,
		webCase{Tree: []tnode{{P: "a", K: "file", T: "a\nb\n", Big: 50000}, {P: "b", K: "file", T: "x\na\na\n", Big: 25001}, {P: "c", K: "file", T: "a\n"}}, Queries: []webQuery{{K: "search", Q: "a$"}, {K: "search", Q: "a$", F: "[ab]$"}, {K: "search", Q: "^a", F: "a$"}}},
		webCase{Tree: []tnode{{P: "a", K: "file", T: "a\nb\n", Big: 50000}, {P: "b", K: "file", T: "x\na\na\n", Big: 25000}}, Queries: []webQuery{{K: "search", Q: "a$"}}})
	reg("C20", "live", opts{quick: 1600, thorough: 60000, recycle: 400, netns: true}, genC20Live, checkC20Live,
		c20Live{Tree: []tnode{{P: "a", K: "file", T: "foo\n"}, {P: "b", K: "file", T: "bar\n"}}, Ops: []liveOp{
			{K: "query", Q: webQuery{K: "search", Q: "foo"}}, {K: "query", Q: webQuery{K: "show", P: "a"}},
			{K: "write", P: "a", T: "bar\n"}, {K: "query", Q: webQuery{K: "show", P: "a"}}, {K: "index"}, {K: "query", Q: webQuery{K: "search", Q: "foo"}}, {K: "query", Q: webQuery{K: "search", Q: "bar"}},
			{K: "mv", P: "b", To: "c"}, {K: "query", Q: webQuery{K: "search", Q: "bar"}}, {K: "reset"}, {K: "query", Q: webQuery{K: "search", Q: "bar"}}, {K: "query", Q: webQuery{K: "show"}}}})
	reg("C20", "endure", opts{quick: 0, thorough: 0, netns: true, cpuLimit: 600}, nil, checkC20Endure,
		c20Endure{Queries: []webQuery{{K: "search", Q: "zzzz"}}, Times: 66000},
		c20Endure{Queries: []webQuery{{K: "search", Q: "foo"}, {K: "search", Q: "("}, {K: "search", Q: "bar", F: "["}, {K: "show", P: "a/b.go"}, {K: "show", P: "nix"}, {K: "search", Q: "o", F: "b.go"}, {K: "search", Q: "zip"}}, Times: 7000})
}
