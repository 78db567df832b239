From 6d2ee5eef38ae0a85e9dd7577bcbab833b701484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 01/28] fix: index: do not let alternate share one set's
 storage between prefix and suffix

union reuses the receiver's storage, so building xy.prefix and xy.suffix
from the same x.exact let the second call overwrite the first result (and
x.exact itself, which addExact still needs).  The query derived for
aa(b(a[ab]?|baaa)) then rejected files that match.
---
 index/regexp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..a2e6d8d 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,9 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		// union reuses storage; x.exact is needed again for suffix and addExact.
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 52ca9b7df9ab7ba48dfa4962cd7d982e787a3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 02/28] fix: index: do not copy the end-of-list entry when
 merging

Merge treated the 0xffffff entry that ends each index's posting lists as
an ordinary trigram and then added its own, so every merge added one
more.  The fourth cindex run on an index panicked with "no progress".
Stop at the first such entry, also in indexes that have several.
---
 index/merge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..6d21f43 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,12 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// The entry that ends the list of posting lists.
+		// Merge writes its own.
+		r.trigram = ^uint32(0)
+		r.count = 0
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From efb4cc1b16b58d7417c07af3b49826685db7f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 03/28] fix: index: treat everything as being below the root
 directory

HasPathPrefix said that /foo is not below /, and Merge used /\x02 as the
end of the names below /, so that re-indexing / panicked.
---
 index/merge.go |  7 ++++++-
 index/path.go  | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/index/merge.go b/index/merge.go
index 6d21f43..4520c11 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -74,7 +74,12 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// If root is / itself, the slash is already there: use \x02.
+		dir := root.String()
+		if root.endsInSlash() {
+			dir = dir[:len(dir)-1]
+		}
+		limit := MakePath(dir + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..eace694 100644
--- a/index/path.go
+++ b/index/path.go
@@ -33,7 +33,15 @@ func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
 			p.s[len(parent.s)] == '/' ||
-			p.s[len(parent.s)] == os.PathSeparator)
+			p.s[len(parent.s)] == os.PathSeparator ||
+			parent.endsInSlash())
+}
+
+// endsInSlash reports whether p ends in a path separator,
+// as the root directory does.
+func (p Path) endsInSlash() bool {
+	n := len(p.s)
+	return n > 0 && (p.s[n-1] == '/' || p.s[n-1] == os.PathSeparator)
 }
 
 // Compare returns the comparison of p and q.
-- 
2.43.0


From f43d13f3b2e5b46938a4cebd40e9392e43f438f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 04/28] fix: cindex: index each file once when given repeated
 or nested paths

'cindex a a/x' and 'cindex a a' indexed the files of a/x (or a) twice, so
csearch printed their lines twice.
---
 cmd/cindex/cindex.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..6c7ee63 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -114,8 +114,8 @@ func main() {
 			}
 			roots = append(roots, index.MakePath(a))
 		}
-		slices.SortFunc(roots, index.Path.Compare)
 	}
+	roots = cleanRoots(roots)
 
 	master := index.File()
 	if _, err := os.Stat(master); err != nil {
@@ -193,3 +193,18 @@ func main() {
 	}
 	return
 }
+
+// cleanRoots sorts roots and removes those that are
+// duplicates of or lie below another root,
+// so that no file is indexed twice.
+func cleanRoots(roots []index.Path) []index.Path {
+	slices.SortFunc(roots, index.Path.Compare)
+	var clean []index.Path
+	for _, root := range roots {
+		if n := len(clean); n > 0 && root.HasPathPrefix(clean[n-1]) {
+			continue
+		}
+		clean = append(clean, root)
+	}
+	return clean
+}
-- 
2.43.0


From b04b34ba9191dae28bfe4ce1d698978b3d8772dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 05/28] fix: cindex: do not crash on a missing path with a
 hidden name

filepath.Walk passes a nil info for a path that cannot be examined.
---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 6c7ee63..8d12111 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -143,7 +143,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From bb45f0c675bab7e1c2d2ca8a744d3a77ee62dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 06/28] fix: regexp: do not report a line after the final
 newline

grep '^$' (and anything else that matches the empty string) printed an
additional empty line at the end of each file and of each buffer load,
the latter also upsetting line numbers.
---
 regexp/match.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..964bc2f 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,12 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
+			if lineStart >= end {
+				// Matched the empty string after the last newline,
+				// which is not a line.
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
@@ -481,7 +487,6 @@ func (g *Grep) Reader(r io.Reader, name string) {
 				}
 				return
 			}
-			lineStart := bytes.LastIndex(buf[chunkStart:m1], nl) + 1 + chunkStart
 			lineEnd := m1 + 1
 			if lineEnd > end {
 				lineEnd = end
-- 
2.43.0


From 5d5b042e125a4a4b9fef307c27c165be5a5d3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 07/28] fix: regexp: implement Grep.V

cgrep accepted -v and ignored it.
---
 regexp/match.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 964bc2f..278a2bc 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -429,6 +429,24 @@ func countNL(b []byte) int {
 	return n
 }
 
+// nextLine returns the end of the first line of b to select, or -1 if there is none.
+func (g *Grep) nextLine(b []byte, beginText, endText bool) int {
+	if !g.V {
+		return g.Regexp.Match(b, beginText, endText)
+	}
+	for start := 0; start < len(b); {
+		end, last := len(b), true
+		if i := bytes.IndexByte(b[start:], '\n'); i >= 0 {
+			end, last = start+i, false
+		}
+		if g.Regexp.Match(b[start:end], beginText && start == 0, endText && last) < 0 {
+			return end
+		}
+		start = end + 1
+	}
+	return -1
+}
+
 func (g *Grep) Reader(r io.Reader, name string) {
 	if g.buf == nil {
 		g.buf = make([]byte, 1<<20)
@@ -462,7 +480,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			endText = true
 		}
 		for chunkStart < end {
-			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
+			m1 := g.nextLine(buf[chunkStart:end], beginText, endText) + chunkStart
 			beginText = false
 			if m1 < chunkStart {
 				break
-- 
2.43.0


From 51c26bebc957f8be8b6c6292f8966d42ffe793b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 08/28] fix: regexp: print correct line numbers with context
 lines

Without -n the lines were not counted, so that -A, -B and -C showed
every match as line 1.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 278a2bc..19c92bf 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -453,7 +453,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From 0d8dfb1936c4a70c9e72046eef8cc2dbc0e071d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 09/28] fix: regexp: escape context lines in HTML output

---
 regexp/match.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 19c92bf..c876bc6 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -521,14 +521,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
-- 
2.43.0


From 77f1409437a82278f75bb5c131ce3cd3b56a5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 10/28] fix: regexp: omit the file name from counts with -h

---
 regexp/match.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regexp/match.go b/regexp/match.go
index c876bc6..0981efa 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -564,6 +564,8 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	if g.C && count > 0 {
 		if g.HTML {
 			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+		} else if g.H {
+			fmt.Fprintf(g.Stdout, "%d\n", count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From cfc57b2cf1a3155b947c029949bb1361de4cb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 11/28] fix: regexp: grow the grep buffer for long lines and
 large contexts

A line longer than the buffer was matched and printed in pieces, and
context was dropped if the buffer could not hold it.
---
 regexp/match.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 0981efa..1b40b9a 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -472,10 +472,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// Stop scan before trailing fragment of a line;
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
-			d := lineSuffixLen(buf, g.PostContext+1)
-			if d < len(buf) {
-				end = len(buf) - d
-			}
+			end = max(chunkStart, len(buf)-lineSuffixLen(buf, g.PostContext+1))
 		} else {
 			endText = true
 		}
@@ -547,13 +544,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		}
 		// Slide pre-context and unprocessed bytes down to start of buffer.
 		d := lineSuffixLen(buf[:end], g.PreContext)
-		if d == end {
-			// Not enough room; give up on context.
-			d = 0
-		}
 		n = copy(buf, buf[end-d:])
 		buf = buf[:n]
 		chunkStart = d
+		if n == cap(buf) {
+			// No room for a whole line and its context: use a larger buffer.
+			g.buf = make([]byte, 2*cap(buf))
+			buf = g.buf[:copy(g.buf, buf)]
+		}
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
 				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
-- 
2.43.0


From d525f240a0d6a8c239cd2257238ce4315f955202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 12/28] fix: csearch: list files with -l and an empty
 expression

The shortcut for this case searched an empty text, in which no line
matches, so nothing was printed.
---
 cmd/csearch/csearch.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..f2530e7 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -146,10 +145,6 @@ func Main() {
 
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
-		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
-			continue
-		}
 		file, err := os.Open(string(name))
 		if err != nil {
 			if i := strings.Index(name, ".zip\x01"); i >= 0 {
-- 
2.43.0


From dad393e6c78baaa5707736b6a2b55a6bf063af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 13/28] fix: csweb: escape error messages that quote the query

---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..f7ed5d3 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %v\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %v\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From ff32271f827321e38c46d9780facc1abab0c5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 14/28] fix: regexp: fold case beyond U+1044F

Unicode has since gained case pairs up to U+1E943, which (?i) ignored.
---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 81cbee1963f398a6d996508fffb000f7d3108596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 15/28] fix: index: document the delta zero encoding that is
 used

---
 index/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/read.go b/index/read.go
index 1c8715b..14b8424 100644
--- a/index/read.go
+++ b/index/read.go
@@ -41,8 +41,8 @@ package index
 // encode the empty file ID list, but empty posting lists are usually
 // not recorded at all.  The list of posting lists ends with an entry
 // with trigram "\xff\xff\xff" and a delta list consisting a single zero.
-// In the γ-encoding, which cannot represent 0, 0 encodes as 31,
-// and all values v ≥ 31 encode as v+1.
+// In the γ-encoding, which cannot represent 0, 0 encodes as 16,
+// and all values v ≥ 16 encode as v+1.
 //
 // The indexes enable efficient random access to the lists.
 //
-- 
2.43.0


From 5c81df68a2809b92a3a6402d9c4f70999c0c4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 16/28] fix: regexp: handle character ranges that begin or end
 at a surrogate

The byte ranges for such a range were computed from the encoding of
U+FFFD, so that \P{Co} and [^\x{E000}-\x{F8FF}] matched U+E000.
---
 regexp/utf.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..d7156bf 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -211,6 +211,14 @@ func (b *runeBuilder) addBranch(pc uint32) {
 }
 
 func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
+	// Surrogate halves have no UTF-8 encoding:
+	// utf8.EncodeRune would turn them into U+FFFD below.
+	if 0xD800 <= lo && lo <= 0xDFFF {
+		lo = 0xE000
+	}
+	if 0xD800 <= hi && hi <= 0xDFFF {
+		hi = 0xD7FF
+	}
 	if lo > hi {
 		return
 	}
-- 
2.43.0


From dece113544cdb6ffe5f3ac2fd41a158803bcabca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 17/28] fix: regexp: do not take a non-ASCII letter pair for a
 one-byte range

A class of two letters that fold to each other was compiled to their low
bytes even when the letters lie beyond ASCII.
---
 regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index d7156bf..287bab7 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && i.Rune[0] < utf8.RuneSelf && i.Rune[2] < utf8.RuneSelf && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 08a2c4554c2431ea85e77eeab66818583dc8d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 18/28] index: let a verif build set the spill limit

---
 index/limits.go       |  9 +++++++++
 index/limits_verif.go | 17 +++++++++++++++++
 index/write.go        |  2 --
 3 files changed, 26 insertions(+), 2 deletions(-)
 create mode 100644 index/limits.go
 create mode 100644 index/limits_verif.go

diff --git a/index/limits.go b/index/limits.go
new file mode 100644
index 0000000..fe0343b
--- /dev/null
+++ b/index/limits.go
@@ -0,0 +1,9 @@
+// Copyright 2024 The Go Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+
+package index
+
+const npost = 64 << 20 / 8 // 64 MB worth of post entries
diff --git a/index/limits_verif.go b/index/limits_verif.go
new file mode 100644
index 0000000..162182a
--- /dev/null
+++ b/index/limits_verif.go
@@ -0,0 +1,17 @@
+// Copyright 2024 The Go Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+
+package index
+
+var npost = 64 << 20 / 8 // 64 MB worth of post entries
+
+// VerifSetSpillLimit sets the number of post entries that an index writer
+// created afterwards holds in memory, and returns the previous number.
+func VerifSetSpillLimit(n int) int {
+	old := npost
+	npost = n
+	return old
+}
diff --git a/index/write.go b/index/write.go
index 185ed23..5a3801f 100644
--- a/index/write.go
+++ b/index/write.go
@@ -64,8 +64,6 @@ type IndexWriter struct {
 	main  *Buffer // main index file
 }
 
-const npost = 64 << 20 / 8 // 64 MB worth of post entries
-
 // Create returns a new IndexWriter that will write the index to file.
 func Create(file string) *IndexWriter {
 	ix := &IndexWriter{
-- 
2.43.0


From d4db0b6020b65650cf4af4509e29ccac005e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 19/28] fix: index: do not die on a zip archive with duplicate
 member names

---
 index/write.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/index/write.go b/index/write.go
index 5a3801f..8b9ade9 100644
--- a/index/write.go
+++ b/index/write.go
@@ -177,7 +177,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
 				if x.Name[i] == y.Name[i] {
 					continue
@@ -192,7 +192,12 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if i+1 < len(files) && files[i+1].Name == file.Name {
+				// The last member with a given name is the one that is searched.
+				log.Printf("%s: duplicate member %q", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
 				println("no3", name)
-- 
2.43.0


From 0c6f072931a7bf321ad7b34d46d2cc473ab4f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 20/28] fix: index: report zip members that cannot be indexed,
 and refuse malformed names

---
 index/write.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/index/write.go b/index/write.go
index 8b9ade9..a92ff0c 100644
--- a/index/write.go
+++ b/index/write.go
@@ -198,14 +198,18 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 				log.Printf("%s: duplicate member %q", name, file.Name)
 				continue
 			}
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed member name %q", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: member %q: %v", name, file.Name, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(name+"\x01"+file.Name, r); err != nil {
+				log.Printf("%s: member %q: %v", name, file.Name, err)
+			}
 			r.Close()
 		}
 		return err
-- 
2.43.0


From 41a3d3003ab496b4686328e4b7394b28e1e741f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 21/28] fix: regexp: escape read errors in HTML output

---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 1b40b9a..3793a40 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -554,7 +554,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		}
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From 5cd8a60e4ec4632fd661d7d0eeafd9bd798716d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 22/28] fix: csweb: unmap the index after each search

Every search mapped the index anew, so that after 65530 of them
the server died of mmap failing.
---
 cmd/csweb/web.go      |  1 +
 index/mmap_bsd.go     |  4 ++++
 index/mmap_linux.go   |  4 ++++
 index/mmap_windows.go |  5 +++++
 index/read.go         | 19 +++++++++++++++++++
 5 files changed, 33 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index f7ed5d3..bdf73fd 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -76,6 +76,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..705a516 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,7 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(d []byte) error {
+	return syscall.Munmap(d[:cap(d)])
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..4ea8490 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,7 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmap(d []byte) error {
+	return syscall.Munmap(d[:cap(d)])
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..b68b8f6 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -29,9 +29,14 @@ func mmapFile(f *os.File) mmapData {
 	}
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
+	syscall.CloseHandle(h) // the view keeps the mapping alive
 	if err != nil {
 		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
 	}
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+func munmap(d []byte) error {
+	return syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&d[0])))
+}
diff --git a/index/read.go b/index/read.go
index 14b8424..e2af463 100644
--- a/index/read.go
+++ b/index/read.go
@@ -644,6 +644,12 @@ func (ix *Index) corrupt() {
 	log.Fatal("corrupt index: remove " + ix.name)
 }
 
+// Close unmaps and closes the index file.
+// The index and any data obtained from it must not be used afterward.
+func (ix *Index) Close() error {
+	return ix.data.close()
+}
+
 // An mmapData is mmap'ed read-only data from a file.
 type mmapData struct {
 	f *os.File
@@ -659,6 +665,19 @@ func mmap(file string) mmapData {
 	return mmapFile(f)
 }
 
+// close undoes mmap.
+func (mm *mmapData) close() error {
+	var err error
+	if len(mm.d) > 0 {
+		err = munmap(mm.d)
+		mm.d = nil
+	}
+	if err1 := mm.f.Close(); err == nil {
+		err = err1
+	}
+	return err
+}
+
 // TODO look in parent directories for index
 // TODO cindex -init
 
-- 
2.43.0


From ea5ef14b8839c6f76e9b5801457393d5bf9abd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 23/28] fix: csweb: do not serve non-text files as HTML

---
 cmd/csweb/web.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index bdf73fd..08e99b2 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -200,6 +200,15 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) {
+		// Let the browser show images and the like, but never markup.
+		ctype := http.DetectContentType(data)
+		if strings.HasPrefix(ctype, "text/html") || strings.HasPrefix(ctype, "text/xml") {
+			ctype = "text/plain; charset=utf-8"
+		}
+		w.Header().Set("Content-Type", ctype)
+		w.Header().Set("X-Content-Type-Options", "nosniff")
+	}
 	w.Write(serveFile(file, data))
 }
 
-- 
2.43.0


From 4e746713696a388fd25cbc3fabf38cfbee967622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 24/28] fix: regexp: report a reader's unexpected EOF

---
 regexp/match.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 3793a40..97c4f58 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -465,7 +465,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	chunkStart := 0
 	for {
-		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])
+		n, err := readFull(r, buf[len(buf):cap(buf)])
 		buf = buf[:len(buf)+n]
 		end := len(buf)
 		if err == nil {
@@ -553,7 +553,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			buf = g.buf[:copy(g.buf, buf)]
 		}
 		if endText && err != nil {
-			if err != io.EOF && err != io.ErrUnexpectedEOF {
+			if err != io.EOF {
 				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
@@ -570,6 +570,18 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 }
 
+// readFull reads until buf is full or a read fails.
+// Unlike io.ReadFull, it returns the reader's own error even after a partial read,
+// so that the end of the input is not confused with an unexpected end.
+func readFull(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var m int
+		m, err = r.Read(buf[n:])
+		n += m
+	}
+	return n, err
+}
+
 func lineSuffixLen(buf []byte, n int) int {
 	end := len(buf)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From d3043a8d566e470b708965b6d3f77b194e5ed38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 25/28] fix: regexp: print the count when the match limit is
 reached

---
 regexp/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 97c4f58..6efdb4f 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -464,6 +464,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		prefix = name + ":"
 	}
 	chunkStart := 0
+Read:
 	for {
 		n, err := readFull(r, buf[len(buf):cap(buf)])
 		buf = buf[:len(buf)+n]
@@ -491,7 +492,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
-				return
+				break Read
 			}
 			g.Matches++
 			if g.L {
-- 
2.43.0


From 37d07766ee7427bb99f5f6b964edc6aae590cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 26/28] fix: cindex: do not overwrite an index that cannot be
 examined

---
 cmd/cindex/cindex.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 8d12111..b3447a7 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -5,8 +5,10 @@
 package main
 
 import (
+	"errors"
 	"flag"
 	"fmt"
+	"io/fs"
 	"log"
 	"os"
 	"path/filepath"
@@ -118,9 +120,10 @@ func main() {
 	roots = cleanRoots(roots)
 
 	master := index.File()
-	if _, err := os.Stat(master); err != nil {
-		// Does not exist.
+	if _, err := os.Stat(master); errors.Is(err, fs.ErrNotExist) {
 		*resetFlag = true
+	} else if err != nil {
+		log.Fatal(err)
 	}
 	file := master
 	if !*resetFlag {
-- 
2.43.0


From c2b46de701607fafc4ff90cd1794fad94eb1b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 27/28] fix: cindex: report failure to replace the index

---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index b3447a7..2246061 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -178,7 +178,9 @@ func main() {
 			}
 		}
 		os.Remove(file)
-		os.Rename(file+"~", master)
+		if err := os.Rename(file+"~", master); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		if *checkFlag {
 			ix := index.Open(file)
-- 
2.43.0


From 7f850fe717833a2b7d801263bcac96be55d02338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 28/28] fix: index: check that copyFile has copied the whole
 file

After a partial copy_file_range that is followed by EIO, io.Copy copies the
rest in another way and reports success, but its count leaves out what it
had copied before. The offsets in the index were then wrong and cindex
replaced a good index with it.
---
 index/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/write.go b/index/write.go
index a92ff0c..98fe1b1 100644
--- a/index/write.go
+++ b/index/write.go
@@ -375,6 +375,9 @@ func copyFile(dst, src *Buffer) {
 	if err != nil {
 		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
+	if n != src.fileOff {
+		log.Fatalf("copying %s to %s: copied %d bytes, want %d", src.name, dst.name, n, src.fileOff)
+	}
 	dst.fileOff += n
 }
 
-- 
2.43.0

