From c7e1effbe5f2b7daa797316401619fa257cabd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 01/83] fix: textpos: LineColumn.String must check the column,
 not the line, before printing the column

---
 textpos/textpos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos.go b/textpos/textpos.go
index ee9e605..183b060 100644
--- a/textpos/textpos.go
+++ b/textpos/textpos.go
@@ -83,7 +83,7 @@ func (p LineColumn) String() string {
 	if p.Line().IsValid() {
 		l = fmt.Sprintf("%d", p.Line().Ordinal())
 	}
-	if p.Line().IsValid() {
+	if p.Column().IsValid() {
 		c = fmt.Sprintf("%d", p.Column().Ordinal())
 	}
 	return fmt.Sprintf("%s:%s", l, c)
-- 
2.43.0


From 16e2ae91a874da7ba7e54bb2ab19e9bb60d46528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 02/83] fix: textpos: File.Pos must refuse negative offsets,
 which denote positions of other files

---
 textpos/textpos_from_go_token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index b79aaa8..aef72d2 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -365,8 +365,8 @@ func (f *File) addLineColumnInfo(offset int, filename string, line, column int)
 // f.Pos(f.Offset(p)) == p.
 //
 func (f *File) Pos(offset int) Pos {
-	if offset > f.size {
-		panic(fmt.Sprintf("invalid file offset %d (should be <= %d)", offset, f.size))
+	if offset < 0 || offset > f.size {
+		panic(fmt.Sprintf("invalid file offset %d (should be in [0, %d])", offset, f.size))
 	}
 	return Pos(f.base + offset)
 }
-- 
2.43.0


From a046b354d7b7e00571c8246ba41ca499143c2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 03/83] fix: textpos: PosForLineColumn must refuse a column
 past the end of its line

---
 textpos/textpos_from_go_token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index aef72d2..3108f74 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -489,6 +489,9 @@ func (f *File) PosForLineColumn(lc LineColumn) Pos {
 	if f.checkPos(finalPos) != nil {
 		return NoPos
 	}
+	if next := lc.line.Ordinal(); next < len(f.lines) && int(finalPos) >= f.base+f.lines[next] {
+		return NoPos // the column is past the end of the line
+	}
 	return finalPos
 }
 
-- 
2.43.0


From d7a48812c8b888faf787d00a664b465c7ea18807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 04/83] fix: textpos: SetLines must refuse a table that does
 not start at offset 0

---
 textpos/textpos_from_go_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index 3108f74..d475e7d 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -263,7 +263,7 @@ func (f *File) SetLines(lines []int) bool {
 	// verify validity of lines table
 	size := f.size
 	for i, offset := range lines {
-		if i > 0 && offset <= lines[i-1] || size <= offset {
+		if i == 0 && offset != 0 || i > 0 && offset <= lines[i-1] || size <= offset {
 			return false
 		}
 	}
-- 
2.43.0


From 9e3467e4afc34d56490484cc7c7437910cec156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 05/83] fix: textpos: AddLine must not start a line table at an
 offset other than 0

---
 textpos/textpos_from_go_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textpos/textpos_from_go_token.go b/textpos/textpos_from_go_token.go
index d475e7d..a96251d 100644
--- a/textpos/textpos_from_go_token.go
+++ b/textpos/textpos_from_go_token.go
@@ -221,7 +221,7 @@ func (f *File) LineCount() int {
 //
 func (f *File) AddLine(offset int) {
 	f.mutex.Lock()
-	if i := len(f.lines); (i == 0 || f.lines[i-1] < offset) && offset < f.size {
+	if i := len(f.lines); (i == 0 && offset == 0 || i > 0 && f.lines[i-1] < offset) && offset < f.size {
 		f.lines = append(f.lines, offset)
 	}
 	f.mutex.Unlock()
-- 
2.43.0


From a16557eba91925865429b8f07706e55422d46175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 06/83] fix: sexpr: a '/' that starts no comment is part of the
 symbol, and a lone one at the end of input is a symbol

---
 sexpr/sexpr.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index fc143fe..ce7f7fe 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -315,14 +315,11 @@ loop:
 
 			// Could have come to the end of a symbol and start of a comment, or a /
 			// is in the middle of the symbol.
-			r2, err := fr.src.readRune()
-			if err == io.EOF {
-				break loop
-			}
-			if err := fr.src.unreadRune(); err != nil {
+			r2, err := fr.src.peekRune()
+			if err != nil && err != io.EOF {
 				return nil, err
 			}
-			startOfComment := r2 == '/' || r2 == '*'
+			startOfComment := err == nil && (r2 == '/' || r2 == '*')
 			if startOfComment {
 				// Start of comment... unread r as well and return.
 				if err := fr.src.unreadRune(); err != nil {
@@ -330,6 +327,7 @@ loop:
 				}
 				break loop
 			}
+			literal.WriteRune(r)
 		default:
 			literal.WriteRune(r)
 		}
@@ -363,6 +361,9 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	contents := strings.Builder{}
 	contents.WriteRune('/')
 	secondCommentRune, err := fr.src.readRune()
+	if err == io.EOF {
+		return nil, false, nil // a lone '/' is a symbol
+	}
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From 921eff9cd8afe4e1ae7b3fbd5c80655ad08ae650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 07/83] fix: sexpr: an escaped backslash does not escape the
 character after it

---
 sexpr/sexpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index ce7f7fe..5e7dbdd 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -233,7 +233,7 @@ loop:
 		default:
 			value.WriteRune(r)
 		}
-		prevCharWasEscape = (r == '\\')
+		prevCharWasEscape = r == '\\' && !prevCharWasEscape
 	}
 	parsedValue, err := strconv.Unquote(value.String())
 	if err != nil {
-- 
2.43.0


From e0bc1219495645f8d38c458e4cb36ea465b9c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 08/83] fix: sexpr: a block comment ends at the first */ and an
 unterminated one is an error

---
 sexpr/sexpr.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sexpr/sexpr.go b/sexpr/sexpr.go
index 5e7dbdd..3659b4f 100644
--- a/sexpr/sexpr.go
+++ b/sexpr/sexpr.go
@@ -371,29 +371,20 @@ func (fr *FormReader) readPossibleComment(start cursorOffset) (CommentForm, bool
 	switch secondCommentRune {
 	case '*':
 		// Consume the contents of the multi-line comment.
+		prev := rune(0)
 		for {
 			r, err := fr.src.readRune()
 			if err == io.EOF {
-				break
+				return nil, false, fr.errorfWithPosition("did not find end of comment '*/'")
 			}
 			if err != nil {
 				return nil, false, err
 			}
 			contents.WriteRune(r)
-			if r != '*' {
-				continue
-			}
-			r2, err := fr.src.readRune()
-			contents.WriteRune(r2)
-			if err == io.EOF {
-				break
-			}
-			if err != nil {
-				return nil, false, err
-			}
-			if r2 == '/' {
+			if r == '/' && prev == '*' {
 				break
 			}
+			prev = r
 		}
 		end := fr.src.cursorOffset()
 		c, err := fr.factory.NewCommentForm(contents.String(), fr.makeSpan(start, end))
-- 
2.43.0


From 16118aedbbb3f7e10d7394dd74306bbdc18135d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 09/83] fix: sexpr: inf, infinity and nan are symbols, not
 numbers without a value

---
 sexpr/sexpr_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sexpr/sexpr_util.go b/sexpr/sexpr_util.go
index 5a72ce1..0e24ddd 100644
--- a/sexpr/sexpr_util.go
+++ b/sexpr/sexpr_util.go
@@ -3,6 +3,7 @@ package sexpr
 import (
 	"fmt"
 	"go/constant"
+	"math"
 	"regexp"
 	"strconv"
 )
@@ -52,7 +53,7 @@ func parseNumber(s string) (*number, error) {
 		return &number{int64: &i}, nil
 	}
 	f, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsInf(f, 0) && !math.IsNaN(f) { // inf, nan and the like are symbols
 		return &number{float64: &f}, nil
 	}
 	// TODO: IF the token is a possible number, return error.
-- 
2.43.0


From 79132bcea7615203d82982755c20451984f0c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 10/83] fix: iri: keep the port and empty authority of base and
 reference when resolving

---
 rdf/iri/iri.go         | 8 ++++----
 rdf/iri/iri_resolve.go | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index fc08224..96f02b2 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -103,7 +103,7 @@ type parts struct {
 	emptyAuth     bool // true if the iri is something like `///path` but if iri is `//hostname/path`
 	userInfo      string
 	host          string
-	port          string
+	port          string // with the :
 	path          string
 	query         string // with the ?
 	emptyFragment bool
@@ -125,8 +125,8 @@ func (p *parts) toIRI() IRI {
 		s += p.host
 	}
 
-	if p.port != "" { // TODO(reddaly): Deal with blank
-		s += ":" + p.port
+	if p.port != "" {
+		s += p.port
 	}
 	if p.path != "" { // TODO(reddaly): Deal with blank
 		s += p.path
@@ -183,7 +183,7 @@ const (
 	scheme = "(?:" + alphaChars + "(?:" + alphaChars + "|" + digitChars + `|[\+\-\.])*)`
 
 	iauthority              = `(?:` + iuserinfo + "@)?" + ihost + `(?:\:` + port + `)?`
-	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(?:\:(` + port + `))?)`
+	iauthorityCapture       = `(?:(` + iuserinfo + "@)?(" + ihost + `)(\:` + port + `)?)`
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index 3a0cfa2..d64e5c4 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -106,7 +106,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	if ref.Scheme() == "" {
 		url.scheme = base.Scheme()
 	}
-	if ref.Scheme() != "" || ref.Host() != "" || ref.User() != "" {
+	if ref.Scheme() != "" || ref.HasAuthority() {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
@@ -132,6 +132,8 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	// The "abs_path" or "rel_path" cases.
 	url.host = base.Host()
 	url.userInfo = base.User()
+	url.port = base.Port()
+	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
 	url.path = resolvePath(base.Path(), ref.Path())
 	return url
 }
-- 
2.43.0


From 9efa70e0f184654cfc1464f8885ea8a3bc0b6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 11/83] fix: iri: merge paths and remove dot segments as RFC
 3986 5.2 prescribes, without rooting rootless paths

---
 rdf/iri/iri_resolve.go | 97 +++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 53 deletions(-)

diff --git a/rdf/iri/iri_resolve.go b/rdf/iri/iri_resolve.go
index d64e5c4..bfd97c7 100644
--- a/rdf/iri/iri_resolve.go
+++ b/rdf/iri/iri_resolve.go
@@ -110,7 +110,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 		// The "absoluteURI" or "net_path" cases.
 		// We can ignore the error from setPath since we know we provided a
 		// validly-escaped path.
-		url.path = resolvePath(ref.Path(), "")
+		url.path = removeDotSegments(ref.Path())
 		return url
 	}
 	// TODO(reddaly): Deal with opaque.
@@ -134,7 +134,7 @@ func resolveReference(base, ref resolveRefArg) *parts {
 	url.userInfo = base.User()
 	url.port = base.Port()
 	url.emptyAuth = base.HasAuthority() && base.Host() == "" && base.Port() == "" && base.User() == ""
-	url.path = resolvePath(base.Path(), ref.Path())
+	url.path = resolvePath(base.Path(), ref.Path(), base.HasAuthority())
 	return url
 }
 
@@ -145,65 +145,56 @@ func formattedQuery(q *string) string {
 	return "?" + *q
 }
 
-// resolvePath applies special path segments from refs and applies
-// them to base, per RFC 3986.
-func resolvePath(base, ref string) string {
-	var full string
+// resolvePath merges the path of a relative reference with the path of its base
+// and removes the dot segments, per RFC 3986 Section 5.2.
+func resolvePath(base, ref string, baseHasAuthority bool) string {
 	if ref == "" {
-		full = base
-	} else if ref[0] != '/' {
-		i := strings.LastIndex(base, "/")
-		full = base[:i+1] + ref
-	} else {
-		full = ref
+		return base
 	}
-	if full == "" {
-		return ""
+	if ref[0] == '/' {
+		return removeDotSegments(ref)
+	}
+	if base == "" && baseHasAuthority {
+		return removeDotSegments("/" + ref)
 	}
+	i := strings.LastIndex(base, "/")
+	return removeDotSegments(base[:i+1] + ref)
+}
 
-	var (
-		last string
-		elem string
-		i    int
-		dst  strings.Builder
-	)
-	first := true
-	remaining := full
-	for i >= 0 {
-		i = strings.IndexByte(remaining, '/')
-		if i < 0 {
-			last, elem, remaining = remaining, remaining, ""
-		} else {
-			elem, remaining = remaining[:i], remaining[i+1:]
+// removeDotSegments implements RFC 3986 Section 5.2.4.
+func removeDotSegments(path string) string {
+	if path == "." || path == ".." {
+		return ""
+	}
+	for strings.HasPrefix(path, "./") || strings.HasPrefix(path, "../") {
+		path = path[strings.IndexByte(path, '/')+1:]
+		if path == "." || path == ".." {
+			return ""
 		}
-		if elem == "." {
-			first = false
-			// drop
-			continue
+	}
+	dst := ""
+	for path != "" {
+		// The next segment, including its leading slash, if any.
+		segment := path
+		if i := strings.IndexByte(path[1:], '/'); i >= 0 {
+			segment = path[:i+1]
 		}
-
-		if elem == ".." {
-			str := dst.String()
-			index := strings.LastIndexByte(str, '/')
-
-			dst.Reset()
-			if index == -1 {
-				first = true
+		path = path[len(segment):]
+		switch segment {
+		case "/.":
+		case "/..":
+			if i := strings.LastIndexByte(dst, '/'); i >= 0 {
+				dst = dst[:i]
 			} else {
-				dst.WriteString(str[:index])
-			}
-		} else {
-			if !first {
-				dst.WriteByte('/')
+				dst = ""
 			}
-			dst.WriteString(elem)
-			first = false
+		default:
+			dst += segment
+			continue
+		}
+		if path == "" {
+			dst += "/"
 		}
 	}
-
-	if last == "." || last == ".." {
-		dst.WriteByte('/')
-	}
-
-	return "/" + strings.TrimPrefix(dst.String(), "/")
+	return dst
 }
-- 
2.43.0


From da9c85bbd9a58a64d259f24a5e06e2cc6cc19b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 12/83] fix: iri: user information may contain ':'

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 96f02b2..03ebc9f 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -187,7 +187,7 @@ const (
 	iauthorityUserInfoGroup = 1
 	iauthorityHostGroup     = 2
 	iauthorityPortGroup     = 3
-	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `)*)`
+	iuserinfo               = `(?:(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|\:)*)`
 	port                    = `(?:\d*)`
 	ihost                   = `(?:` + ipLiteral + `|` + ipV4Address + `|` + iregName + `)`
 	iregName                = "(?:(?:" + iunreserved + "|" + pctEncoded + "|" + subDelims + ")*)" // *( iunreserved / pctEncoded / subDelims )
-- 
2.43.0


From ee522e51055f8487c91275028e4328af9571beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 13/83] fix: iri: a fragment with a line break is part of the
 IRI that is checked

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 03ebc9f..5bedae7 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -286,7 +286,7 @@ var (
 	}()
 
 	// re from RFC 3986 page 50.
-	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?`)
+	uriRE                            = mustCompileNamed("uriRE", `^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#((?s:.*)))?`)
 	uriRESchemeGroup                 = 2
 	uriREAuthorityWithSlashSlahGroup = 3
 	uriREAuthorityGroup              = 4
-- 
2.43.0


From 03391cec84695fff4b68a9d9cbd3ec78fffe776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 14/83] fix: iri: check the query against the query grammar

---
 rdf/iri/iri.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 5bedae7..a630b14 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -209,11 +209,11 @@ const (
 	// non-zero-length segment without any colon ":"
 	isegmentnznc = `(?:` + iunreserved + `|` + pctEncoded + `|` + subDelims + `|` + `[@])`
 
-	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `\/\?` + `)*)`
+	iquery = `(?:(?:` + ipchar + `|` + iprivate + `|` + `[\/\?]` + `)*)`
 
 	ifragment = `(?:(?:` + ipchar + `|` + `[\/\?]` + `)*)`
 
-	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000]-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
+	iprivate = `[\x{E000}-\x{F8FF}` + `\x{F0000}-\x{FFFFD}` + `\x{100000}-\x{10FFFD}]`
 )
 
 // IP Address related
@@ -256,7 +256,7 @@ var (
 	iauthorityRE        = mustCompileNamed("iauthorityRE", "^"+iauthority+"$")
 	iauthorityCaptureRE = mustCompileNamed("iauthorityCaptureRE", "^"+iauthorityCapture+"$")
 	ipathRE             = mustCompileNamed("ipath", "^"+ipath+"$")
-	iqueryRE            = mustCompileNamed("iquery", "^"+ipath+"$")
+	iqueryRE            = mustCompileNamed("iquery", "^"+iquery+"$")
 	ifragmentRE         = mustCompileNamed("ifragment", "^"+ifragment+"$")
 
 	percentEncodedChar      = mustCompileNamed("percentEncodedChar", pctEncoded)
-- 
2.43.0


From b6a9e16d46041f77714674b1ff119fc181bf92ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 15/83] fix: iri: the percent-encoded octets of U+FFFD are
 valid UTF-8

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index a630b14..754fad8 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -330,7 +330,7 @@ func (iri IRI) normalizePercentEncoding() (IRI, error) {
 		octetsOffset := 0
 		for len(unconsumedOctets) > 0 {
 			codePoint, size := utf8.DecodeRune(unconsumedOctets)
-			if codePoint == utf8.RuneError {
+			if codePoint == utf8.RuneError && size <= 1 {
 				errs = append(errs, fmt.Errorf("percent-encoded sequence %q  contains invalid UTF-8 code point at start of byte sequence %+v", pctEscaped[octetsOffset*3:], unconsumedOctets))
 				return pctEscaped
 			}
-- 
2.43.0


From d6133b5dc06e8461aff0419833af40581e0f4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 16/83] fix: iri: the first segment of a relative reference has
 no ':'

---
 rdf/iri/iri.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 754fad8..3f7d418 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -35,6 +35,9 @@ func Parse(s string) (IRI, error) {
 	if auth != "" && !iauthorityRE.MatchString(auth) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid auth %q does not match regexp %s", s, auth, iauthorityRE)
 	}
+	if scheme == "" && auth == "" && strings.Contains(strings.SplitN(path, "/", 2)[0], ":") {
+		return "", fmt.Errorf("%q is not a valid IRI: first segment of relative path %q contains a colon", s, path)
+	}
 	if path != "" && !ipathRE.MatchString(path) {
 		return "", fmt.Errorf("%q is not a valid IRI: invalid path %q does not match regexp %s", s, path, ipathRE)
 	}
-- 
2.43.0


From 93d06d970deca414510ce3691f1259b62e338d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 17/83] fix: iri: accept every IPv6 address form of RFC 3986,
 not only eight four-digit groups

---
 rdf/iri/iri.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 3f7d418..554b4a1 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -227,19 +227,18 @@ const (
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
-		`(?:(?:` + h16 + `\:){6}` + ls32 + `)` + //          6( h16 `:` ) ls32
-		// TODO(reddaly): below lines
-		//  + `|` +                       `::` 5( h16 `:` ) ls32
-		//  + `|` + [               h16 ] `::` 4( h16 `:` ) ls32
-		//  + `|` + [ *1( h16 `:` ) h16 ] `::` 3( h16 `:` ) ls32
-		//  + `|` + [ *2( h16 `:` ) h16 ] `::` 2( h16 `:` ) ls32
-		//  + `|` + [ *3( h16 `:` ) h16 ] `::`    h16 `:`   ls32
-		//  + `|` + [ *4( h16 `:` ) h16 ] `::`              ls32
-		//  + `|` + [ *5( h16 `:` ) h16 ] `::`              h16
-		//  + `|` + [ *6( h16 `:` ) h16 ] `::`
+		`(?:` + h16 + `\:){6}` + ls32 + `|` + //                             6( h16 ":" ) ls32
+		`\:\:(?:` + h16 + `\:){5}` + ls32 + `|` + //                        "::" 5( h16 ":" ) ls32
+		`(?:` + h16 + `)?\:\:(?:` + h16 + `\:){4}` + ls32 + `|` + // [               h16 ] "::" 4( h16 ":" ) ls32
+		`(?:(?:` + h16 + `\:){0,1}` + h16 + `)?\:\:(?:` + h16 + `\:){3}` + ls32 + `|` + // [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
+		`(?:(?:` + h16 + `\:){0,2}` + h16 + `)?\:\:(?:` + h16 + `\:){2}` + ls32 + `|` + // [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
+		`(?:(?:` + h16 + `\:){0,3}` + h16 + `)?\:\:` + h16 + `\:` + ls32 + `|` + // [ *3( h16 ":" ) h16 ] "::"    h16 ":"   ls32
+		`(?:(?:` + h16 + `\:){0,4}` + h16 + `)?\:\:` + ls32 + `|` + // [ *4( h16 ":" ) h16 ] "::"              ls32
+		`(?:(?:` + h16 + `\:){0,5}` + h16 + `)?\:\:` + h16 + `|` + // [ *5( h16 ":" ) h16 ] "::"              h16
+		`(?:(?:` + h16 + `\:){0,6}` + h16 + `)?\:\:` + // [ *6( h16 ":" ) h16 ] "::"
 		`)`)
 
-	h16         = `(?:` + hex + hex + hex + hex + `)`
+	h16         = `(?:` + hex + `{1,4})`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
 	ipV4Address = `(?:` + decOctet + `.` + decOctet + `.` + decOctet + `.` + decOctet + `)`
 
-- 
2.43.0


From a067029438823a3225d1298077aae87924bf557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 18/83] fix: iri: a decimal octet is separated by '.', not by
 any character

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 554b4a1..0771379 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -240,7 +240,7 @@ const (
 
 	h16         = `(?:` + hex + `{1,4})`
 	ls32        = `(?:` + h16 + `\:` + h16 + `|` + ipV4Address + `)`
-	ipV4Address = `(?:` + decOctet + `.` + decOctet + `.` + decOctet + `.` + decOctet + `)`
+	ipV4Address = `(?:` + decOctet + `\.` + decOctet + `\.` + decOctet + `\.` + decOctet + `)`
 
 	decOctet = (`(?:\d` + `|` + // 0-9
 		`[1-9]\d` + `|` + // 10-99
-- 
2.43.0


From 52b27d9a2390dead992dea1ac0c7993eeaa2dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 19/83] fix: iri: accept every IPvFuture version and refuse an
 empty IPvFuture address

---
 rdf/iri/iri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/iri/iri.go b/rdf/iri/iri.go
index 0771379..74c5e4a 100644
--- a/rdf/iri/iri.go
+++ b/rdf/iri/iri.go
@@ -223,7 +223,7 @@ const (
 const (
 	ipLiteral = `\[(?:` + ipV6Address + `|` + ipVFuture + `)\]`
 
-	ipVFuture = `v` + hex + `\.(?:` + unreserved + `|` + subDelims + `|\:)*`
+	ipVFuture = `[vV]` + hex + `+\.(?:` + unreserved + `|` + subDelims + `|\:)+`
 
 	// see https://stackoverflow.com/questions/3032593/using-explicitly-numbered-repetition-instead-of-question-mark-star-and-plus
 	ipV6Address = (`(?:` +
-- 
2.43.0


From 001877d86edd4c5fa8d3b22e065066a4e983778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 20/83] fix: ntriples: the rdf:langString IRI has no leading
 space

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 741f1d9..7742334 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -23,7 +23,7 @@ type IRI = iri.IRI
 const (
 	// LangString is the type of a literal string that has a language annotation.
 	// https://www.w3.org/TR/2014/REC-rdf11-concepts-20140225/#dfn-literal.
-	LangString IRI = " http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
+	LangString IRI = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
 
 	// XMLSchemaString is the type of a literal string with no language
 	// annotation.
-- 
2.43.0


From 33a22de6689da23529e5e8d1e3dce1ebd1ba06ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 21/83] fix: ntriples: a language tag may have any number of
 subtags

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 7742334..5d26568 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -393,7 +393,7 @@ const (
 
 	stringLiteralQuote = `"((?:[^\x22\x5C\x{A}\x{D}]|` + echar + `|` + uchar + `)*)"`
 	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*)>`
-	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)?)`
+	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)*)`
 )
 
 var (
-- 
2.43.0


From 60da6cd537260809810c74fe4795464d936bd254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 22/83] fix: ntriples: a blank node label does not end with '.'
 and holds only label characters

---
 rdf/ntriples/ntriples.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 5d26568..10204b4 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -387,7 +387,7 @@ const (
 	hex         = `[0-9A-Fa-f]`
 	uchar       = `(?:\\u` + hex + hex + hex + hex + `|\\U` + hex + hex + hex + hex + hex + hex + hex + hex + `)`
 	echar       = `\\[\\tbnrf"']`
-	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{1000}0\#xEFFFF`
+	pnCharsBase = `A-Za-z\x{00C0}-\x{00D6}\x{00D8}-\x{00F6}\x{00F8}-\x{02FF}\x{0370}-\x{037D}\x{037F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}`
 	pnCharsU    = pnCharsBase + `_\:`
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
@@ -400,7 +400,7 @@ var (
 	irirefRegexp = regexp.MustCompile("^" + iriref)
 
 	// 	BLANK_NODE_LABEL	::=	'_:' (PN_CHARS_U | [0-9]) ((PN_CHARS | '.')* PN_CHARS)?
-	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9][` + pnChars + `\.]*[` + pnChars + `]?`)
+	blankNodeLabel = regexp.MustCompile(`^_\:[` + pnCharsU + `0-9](?:[` + pnChars + `\.]*[` + pnChars + `])?`)
 	literalRegexp  = regexp.MustCompile(`^` + stringLiteralQuote + `(?:(?:\^\^` + iriref + `)|` + langTag + `)?`)
 )
 
-- 
2.43.0


From 396bcbfae7c19488f20191797bbbd44883b20c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 23/83] fix: ntriples: unescape the datatype IRI of a literal
 like any other IRI

---
 rdf/ntriples/ntriples.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 10204b4..01efad2 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -452,7 +452,11 @@ func ParseLiteral(input string) (Literal, string, error) {
 	} else if lang != "" {
 		return NewLiteral(lexicalForm, LangString, lang), rest, nil
 	}
-	return NewLiteral(lexicalForm, IRI(iri), lang), rest, nil
+	datatype, err := canonicalizeIRILiteral(iri)
+	if err != nil {
+		return nil, "", fmt.Errorf("failed to normalize datatype IRI string %q: %w", iri, err)
+	}
+	return NewLiteral(lexicalForm, IRI(datatype), lang), rest, nil
 }
 
 // Comment is a line comment in an N-Tuples file.
-- 
2.43.0


From f0469a42ba63e6d50bcb958c0cddc2a701440d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 24/83] fix: ntriples: refuse the empty IRI, which makes a term
 of no kind

---
 rdf/ntriples/ntriples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 01efad2..0b65401 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -392,7 +392,7 @@ const (
 	pnChars     = pnCharsU + `\-0-9\x{00B7}\x{0300}-\x{036F}\x{203F}-\x{2040}`
 
 	stringLiteralQuote = `"((?:[^\x22\x5C\x{A}\x{D}]|` + echar + `|` + uchar + `)*)"`
-	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)*)>`
+	iriref             = `<((?:[^\x00-\x20<>"{}|^` + "`" + `\\]|` + uchar + `)+)>`
 	langTag            = `@([a-zA-Z]+(?:\-[a-zA-Z0-9]+)*)`
 )
 
-- 
2.43.0


From 4845adb815abdc0e6d4f8f23ddc0664bce54d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 25/83] fix: ntriples: an escape that denotes no character, or
 one an IRI cannot hold, is an error

---
 rdf/ntriples/ntriples.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index 0b65401..b53b8e8 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/google/xtoproto/rdf/iri"
 )
@@ -500,11 +501,11 @@ func parseStringLiteral(in string) (string, error) {
 			continue
 		}
 		if c := charMatch[stringLiteralUCharGroup]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			r, err := parseUChar(c)
 			if err != nil {
-				return "", fmt.Errorf("internal error: bad hex sequence %q: %w", c, err)
+				return "", err
 			}
-			builder.WriteRune(rune(code))
+			builder.WriteRune(r)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch %+v", in, charMatch)
 		}
@@ -514,6 +515,19 @@ func parseStringLiteral(in string) (string, error) {
 	return builder.String(), nil
 }
 
+// parseUChar returns the character denoted by a \uXXXX or \UXXXXXXXX escape
+// sequence.
+func parseUChar(escape string) (rune, error) {
+	code, err := strconv.ParseInt(escape[2:], 16, 64)
+	if err != nil {
+		return 0, fmt.Errorf("internal error: bad hex sequence %q: %w", escape, err)
+	}
+	if code > utf8.MaxRune || !utf8.ValidRune(rune(code)) {
+		return 0, fmt.Errorf("escape sequence %q does not denote a character", escape)
+	}
+	return rune(code), nil
+}
+
 // canonicalFormEscapes maps a rune to an escaped version of that rune.
 //
 // "Within STRING_LITERAL_QUOTE, only the characters U+0022, U+005C, U+000A,
@@ -578,12 +592,15 @@ func canonicalizeIRILiteral(in string) (string, error) {
 		if c := charMatch[1]; len(c) != 0 {
 			canonical.WriteString(c)
 		} else if c := charMatch[2]; len(c) != 0 {
-			code, err := strconv.ParseInt(c[2:], 16, 64)
+			r, err := parseUChar(c)
 			if err != nil {
 				return "", err
 			}
+			if r <= 0x20 || strings.ContainsRune("<>\"{}|^`\\", r) {
+				return "", fmt.Errorf("escape sequence %q denotes a character that is not allowed in an IRI", c)
+			}
 			// TODO(reddaly): Check if the character needs to be percent-encoded?
-			canonical.WriteRune(rune(code))
+			canonical.WriteRune(r)
 		} else {
 			return "", fmt.Errorf("internal error with string %q - charmatch[%d] = %s", in, i, mustJSONStr(charMatch))
 		}
-- 
2.43.0


From c9be20b9240c544424861ab18ce74ff5f3cdbe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 26/83] fix: ntriples: white space may precede a triple or
 comment and a comment may follow a triple

---
 rdf/ntriples/ntriples.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index b53b8e8..f8d2c0c 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -294,10 +294,11 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	if len(line) == 0 {
 		return nil, nil, fmt.Errorf("invalid zero-length line")
 	}
-	if line[0] == '#' {
-		return nil, &Comment{line[1:]}, nil
+	content := strings.TrimLeft(line, " \t")
+	if strings.HasPrefix(content, "#") {
+		return nil, &Comment{content[1:]}, nil
 	}
-	sub, rest, err := parseSubject(line)
+	sub, rest, err := parseSubject(content)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to parse subject of line: %w", err)
 	}
@@ -309,10 +310,13 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to parse object of line: %w", err)
 	}
-	rest = strings.Trim(rest, " \t")
-	if rest != "." {
+	rest = strings.TrimLeft(rest, " \t")
+	if !strings.HasPrefix(rest, ".") {
 		return nil, nil, fmt.Errorf("last term must be `.`, got %q", rest)
 	}
+	if after := strings.TrimLeft(rest[1:], " \t"); after != "" && after[0] != '#' {
+		return nil, nil, fmt.Errorf("unexpected text after `.`: %q", after)
+	}
 
 	return NewTriple(sub, pred, obj), nil, nil
 }
-- 
2.43.0


From 63c51ffdee2872cc90a42c4a09be162732838b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 27/83] fix: ntriples: refuse a line that is not UTF-8

---
 rdf/ntriples/ntriples.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/ntriples/ntriples.go b/rdf/ntriples/ntriples.go
index f8d2c0c..8ec3838 100644
--- a/rdf/ntriples/ntriples.go
+++ b/rdf/ntriples/ntriples.go
@@ -294,6 +294,9 @@ func ParseLine(line string) (*Triple, *Comment, error) {
 	if len(line) == 0 {
 		return nil, nil, fmt.Errorf("invalid zero-length line")
 	}
+	if !utf8.ValidString(line) {
+		return nil, nil, fmt.Errorf("invalid line: %q is not valid UTF-8", line)
+	}
 	content := strings.TrimLeft(line, " \t")
 	if strings.HasPrefix(content, "#") {
 		return nil, &Comment{content[1:]}, nil
-- 
2.43.0


From 0242d6333058dd62b1d2a603c9e53073990dba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 28/83] fix: rdfxml: a literal with a language has the datatype
 rdf:langString

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 307cd56..7eba2bb 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1030,7 +1030,7 @@ func parseLiteral(p *Parser, s string) (ntriples.Literal, error) {
 	if lang == "" {
 		return ntriples.NewLiteral(s, ntriples.XMLSchemaString, ""), nil
 	}
-	return ntriples.NewLiteral(s, "", lang), nil
+	return ntriples.NewLiteral(s, ntriples.LangString, lang), nil
 }
 
 func parseIRI(s string) (ntriples.IRI, error) {
-- 
2.43.0


From 9aade053cf7923c25cff73516f6b97e65aa95e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 29/83] fix: rdfxml: the first member of a collection is the
 value of the property's list node

---
 rdf/rdfxml/rdfxml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 7eba2bb..fe097ed 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -848,8 +848,9 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 
 	isFirst := true
 	for i, emittedSub := range emittedSubjects {
-		nextSeqID := p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
+		nextSeqID := seqID
 		if !isFirst {
+			nextSeqID = p.generateBlankNodeIDWithHint(fmt.Sprintf("cons-%d", i))
 			triple := ntriples.NewTriple(ntriples.NewSubjectBlankNodeID(seqID), RDFRest, ntriples.NewObjectBlankNodeID(nextSeqID))
 			ind, err := p.tripleCallback(triple)
 			if err != nil || ind == Stop {
-- 
2.43.0


From 39dbb7f14ff2347d67fed5a6d5f184b7b5952610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 30/83] fix: rdfxml: a relative xml:base is resolved against
 the base in scope

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index fe097ed..603eb1b 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -317,7 +317,7 @@ func (p *Parser) handleGenericStartElem(elem xml.StartElement) (func() error, er
 		}
 	}
 	if base != nil {
-		baseIRI, err := parseIRI(*base)
+		baseIRI, err := resolve(p, *base)
 		if err != nil {
 			return nil, p.errorf("xml:base value invalid: %w", err)
 		}
-- 
2.43.0


From 8887497720d96729afcf21b0b80ddb794421422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 31/83] fix: rdfxml: rdf:datatype is resolved against the base
 in scope

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 603eb1b..f243c9e 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -768,7 +768,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return p.errorf("bad literalPropertyElt: %w", err)
 	}
 	if dtAttr != nil {
-		datatype, err := parseIRI(dtAttr.Value)
+		datatype, err := resolve(p, dtAttr.Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0e9a51dbe921bf641ce5992d65dfd8511f5929c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 32/83] fix: rdfxml: an attribute in a namespace is no XML
 attribute because its local name starts with xml

---
 rdf/rdfxml/rdfxml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index f243c9e..5117da5 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -1282,7 +1282,7 @@ var beginsWithXMLExpr = regexp.MustCompile(`^(?i)xml`)
 var xmlnsRE = regexp.MustCompile(`^(?i)` + regexp.QuoteMeta(xmlNS))
 
 func isXMLAttr(name xml.Name) bool {
-	return xmlnsRE.MatchString(name.Space) || beginsWithXMLExpr.MatchString(name.Local) || beginsWithXMLExpr.MatchString(name.Space)
+	return xmlnsRE.MatchString(name.Space) || (name.Space == "" && beginsWithXMLExpr.MatchString(name.Local)) || beginsWithXMLExpr.MatchString(name.Space)
 }
 
 func isPropertyAttr(name xml.Name) bool {
-- 
2.43.0


From 7c1e8b4de2d44a4f4eb583c6889fbd1fa2f7a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 33/83] fix: rdfxml: generated blank node labels cannot be
 names used in the document

---
 rdf/rdfxml/rdfxml.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 5117da5..f4386d8 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -279,10 +279,12 @@ func (p *Parser) language() string {
 	return p.langStack[len(p.langStack)-1]
 }
 
+// Labels of generated blank nodes start with a digit, which the value of an
+// rdf:nodeID attribute, an NCName, never does.
 func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d", p.nextBlankNodeID))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("0gen-%d", p.nextBlankNodeID))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
@@ -293,7 +295,7 @@ func (p *Parser) generateBlankNodeID() ntriples.BlankNodeID {
 func (p *Parser) generateBlankNodeIDWithHint(hint string) ntriples.BlankNodeID {
 	for {
 		p.nextBlankNodeID++
-		candidate := ntriples.BlankNodeID(fmt.Sprintf("gen-%d-%s", p.nextBlankNodeID, hint))
+		candidate := ntriples.BlankNodeID(fmt.Sprintf("0gen-%d-%s", p.nextBlankNodeID, hint))
 		if p.observedBlankNodes[candidate] {
 			continue
 		}
-- 
2.43.0


From 2a4a0f8dc672536055e06c6e9a3ce9865391dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 34/83] fix: rdfxml: an XML name may start with and contain '_'

---
 rdf/rdfxml/rdfxml_xmlname.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf/rdfxml/rdfxml_xmlname.go b/rdf/rdfxml/rdfxml_xmlname.go
index f5295df..dc9484e 100644
--- a/rdf/rdfxml/rdfxml_xmlname.go
+++ b/rdf/rdfxml/rdfxml_xmlname.go
@@ -30,7 +30,7 @@ func checkXMLNCName(candidate string) error {
 
 const (
 	// See https://www.w3.org/TR/xml/ 2.3
-	xmlNameStartChar = (`[\:A-Za-z` +
+	xmlNameStartChar = (`[\:A-Z_a-z` +
 		`\xC0-\xD6` +
 		`\xD8-\xF6` +
 		`\xF8-\x{2FF}` +
-- 
2.43.0


From 1c3598bc99578797ee236b3031f00f32bf190e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 35/83] fix: rdfxml: rdf:ID is an NCName that is used once per
 base IRI, on property elements too

---
 rdf/rdfxml/rdfxml.go | 56 ++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index f4386d8..c205bf3 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -169,8 +169,7 @@ type ParserOptions struct {
 }
 
 type baseStackEntry struct {
-	iri         ntriples.IRI
-	declaredIDs map[ntriples.IRI]bool
+	iri ntriples.IRI
 }
 
 // Parser is an RDF/XML document parser.
@@ -190,12 +189,13 @@ type Parser struct {
 	langStack          []string
 	nextBlankNodeID    int
 	observedBlankNodes map[ntriples.BlankNodeID]bool
+	declaredIDs        map[ntriples.IRI]bool
 }
 
 // NewParser returns a new RDF/XML parser that reads from the given xml document
 // tr.
 func NewParser(tr xml.TokenReader, opts *ParserOptions) *Parser {
-	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}}
+	p := &Parser{tr, nil, nil, nil, 0, map[ntriples.BlankNodeID]bool{}, map[ntriples.IRI]bool{}}
 	if opts != nil && opts.BaseURL != "" {
 		p.pushBaseURI(opts.BaseURL)
 	}
@@ -225,8 +225,7 @@ func (p *Parser) pushBaseURI(baseURI ntriples.IRI) {
 	// part of the base URI; any fragment part is ignored. See Uniform Resource
 	// Identifiers (URI) [RFC3986].
 	entry := &baseStackEntry{
-		iri:         removeFragment(baseURI),
-		declaredIDs: map[ntriples.IRI]bool{},
+		iri: removeFragment(baseURI),
 	}
 	p.xmlBaseStack = append(p.xmlBaseStack, entry)
 }
@@ -258,20 +257,30 @@ func (p *Parser) baseURI() ntriples.IRI {
 	return p.xmlBaseStack[len(p.xmlBaseStack)-1].iri
 }
 
-// declareID declares that a nodeElement with the given ID has been encountered
-// in the scope of the current xml:base element. If such an ID has already been
-// registered in the current scope, an error is returned.
+// declareID declares that an rdf:ID attribute that denotes the given IRI has
+// been encountered. If the IRI has already been declared, an error is returned.
 func (p *Parser) declareID(id ntriples.IRI) error {
-	if len(p.xmlBaseStack) == 0 {
-		return p.errorf("internal error - empty base stack")
-	}
-	entry := p.xmlBaseStack[len(p.xmlBaseStack)-1]
-	if entry.declaredIDs[id] {
+	if p.declaredIDs[id] {
 		return p.errorf("duplicate node element id within same xml:base scope; see section 2.14 of the RDF/XML spec <https://www.w3.org/TR/rdf-syntax-grammar/#nodeElementURIs>; offending id = %s", id)
 	}
+	p.declaredIDs[id] = true
 	return nil
 }
 
+// resolveID returns the IRI denoted by the value of an rdf:ID attribute. It is
+// an error if the value is not an NCName or if the same value has already been
+// used with the same base IRI.
+func (p *Parser) resolveID(id string) (ntriples.IRI, error) {
+	if err := checkXMLNCName(id); err != nil {
+		return "", p.errorf("invalid rdf:ID parameter: %w", err)
+	}
+	idIRI, err := resolve(p, "#"+id)
+	if err != nil {
+		return "", err
+	}
+	return idIRI, p.declareID(idIRI)
+}
+
 func (p *Parser) language() string {
 	if len(p.langStack) == 0 {
 		return "" // according to 6.1, language is set to the empty string.
@@ -381,13 +390,10 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	for _, attr := range idAttrs {
 		switch xmlNameToIRI(attr.Name) {
 		case RDFID:
-			subIRI, err := resolve(p, "#"+attr.Value)
+			subIRI, err := p.resolveID(attr.Value)
 			if err != nil {
 				return nil, p.errorf("bad IRI for rdf:Description's rdf:ID attribute: %w", err)
 			}
-			if err := p.declareID(subIRI); err != nil {
-				return nil, err
-			}
 			newSubject := ntriples.NewSubjectIRI(subIRI)
 			if subject != nil {
 				return nil, p.errorf("ambiguous subject: %s and %s", subject, newSubject)
@@ -549,7 +555,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := p.resolveID(attr.Value)
 				if err != nil {
 					return err
 				}
@@ -600,7 +606,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 				return nil
 			}
 			if attr := findAttr(propElem, RDFID); attr != nil {
-				i, err := resolve(p, "#"+attr.Value)
+				i, err := p.resolveID(attr.Value)
 				if err != nil {
 					return err
 				}
@@ -644,7 +650,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		// a.string-value))) using the reification rules in section 7.3 and
 		// e.subject := i.
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := p.resolveID(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -687,7 +693,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// with uri(identifier := resolve(e, concat("#", i.string-value))) using
 			// the reification rules in section 7.3.
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := p.resolveID(idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -747,7 +753,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 			// 7.3.
 
 			if idAttr != nil {
-				i, err := resolve(p, "#"+idAttr.Value)
+				i, err := p.resolveID(idAttr.Value)
 				if err != nil {
 					return err
 				}
@@ -790,7 +796,7 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 		return nil
 	}
 	if idAttr != nil {
-		i, err := resolve(p, "#"+idAttr.Value)
+		i, err := p.resolveID(idAttr.Value)
 		if err != nil {
 			return err
 		}
@@ -820,7 +826,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := p.resolveID(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -838,7 +844,7 @@ func readSequencePropertyElem(p *Parser, subject *ntriples.Subject, propElem xml
 			return err
 		}
 		if attr := findAttr(propElem, RDFID); attr != nil {
-			i, err := resolve(p, "#"+attr.Value)
+			i, err := p.resolveID(attr.Value)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From bba66a5066e54ec6feb60f638386fc7c743c998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 36/83] fix: rdfxml: text between the property elements of a
 node is an error

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index c205bf3..f6f142d 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -515,6 +515,9 @@ func readPropertyElems(p *Parser, startElemName xml.Name, subject *ntriples.Subj
 			}
 			return nil
 		case xml.CharData:
+			if str := string(t); strings.TrimSpace(str) != "" {
+				return p.errorf("unexpected non-whitespace element text %q", str)
+			}
 		case xml.Comment: // ignore
 		case xml.ProcInst: // ignore
 		case xml.Directive: // ignore aside from the usual handling
-- 
2.43.0


From 14ab5673efd1f004ca36b6c2e49d7b0bd1e40798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 37/83] fix: rdfxml: a property element with a node element
 inside has no attribute but rdf:ID

---
 rdf/rdfxml/rdfxml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index f6f142d..9e80425 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -630,6 +630,11 @@ func readPropertyElemInternal(p *Parser, liCounter *int, subject *ntriples.Subje
 	}
 	if childInfo.nodeElemStart != nil {
 		// 7.2.15: Production resourcePropertyElt
+		for _, attr := range rdfAttributes(propElem.Attr) {
+			if xmlNameToIRI(attr.Name) != RDFID {
+				return p.errorf("unexpected attribute %s of property element %s, which contains a node element", attr.Name.Local, elemURI)
+			}
+		}
 		valueSubject, err := readNodeElem(p, *childInfo.nodeElemStart)
 		if err != nil {
 			return p.errorf("failed to parse resourcePropertyElt %s property of %s: %w", xmlNameToIRI(childInfo.nodeElemStart.Name), subject, err)
-- 
2.43.0


From ce39d5860e9c438dfe351be202ad04834f1e6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 38/83] fix: rdfxml: rdf:RDF has no attributes

---
 rdf/rdfxml/rdfxml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 9e80425..059f078 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -93,6 +93,9 @@ func readRootOrNodeElem(p *Parser) error {
 			started = true
 
 			if xmlNameToIRI(t.Name) == RDFRoot {
+				if attrs := rdfAttributes(t.Attr); len(attrs) != 0 {
+					return p.errorf("rdf:RDF cannot have attributes, got %v", attrs)
+				}
 				_, err := p.handleGenericStartElem(t)
 				if err != nil {
 					return err
-- 
2.43.0


From 2ebb10b435e81258185e9792a81b378fcaa96716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 39/83] fix: rdfxml: an attribute without a namespace is an RDF
 attribute for the five names the standard lists and an error otherwise

---
 rdf/rdfxml/rdfxml.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/rdf/rdfxml/rdfxml.go b/rdf/rdfxml/rdfxml.go
index 059f078..a61f07d 100644
--- a/rdf/rdfxml/rdfxml.go
+++ b/rdf/rdfxml/rdfxml.go
@@ -364,6 +364,9 @@ func readNodeElemUsingSubject(p *Parser, start xml.StartElement, forcedSubject *
 	if err != nil {
 		return nil, err
 	}
+	if start.Attr, err = qualifiedAttrs(start.Attr); err != nil {
+		return nil, p.errorf("bad attributes while parsing %+v: %w", start, err)
+	}
 	// From the spec:
 	//
 	// If there is an attribute a with a.URI == rdf:ID, then e.subject :=
@@ -897,6 +900,9 @@ func readPropertyElem(p *Parser, liCounter *int, subject *ntriples.Subject, prop
 	if err != nil {
 		return err
 	}
+	if propElem.Attr, err = qualifiedAttrs(propElem.Attr); err != nil {
+		return p.errorf("bad property element %+v: %w", propElem, err)
+	}
 	if err := readPropertyElemInternal(p, liCounter, subject, propElem); err != nil {
 		return err
 	}
@@ -1164,6 +1170,25 @@ func rdfAttributes(attrs []xml.Attr) []xml.Attr {
 	})
 }
 
+// qualifiedAttrs returns the attributes with the ones that have no namespace
+// placed in the RDF namespace if they are among those the spec permits, see
+// https://www.w3.org/TR/rdf-syntax-grammar/#section-Infoset-Attribute-Information.
+func qualifiedAttrs(attrs []xml.Attr) ([]xml.Attr, error) {
+	var out []xml.Attr
+	for _, a := range attrs {
+		if a.Name.Space == "" && !isXMLAttr(a.Name) {
+			switch a.Name.Local {
+			case "ID", "about", "resource", "parseType", "type":
+				a.Name.Space = string(RDF)
+			default:
+				return nil, fmt.Errorf("attribute %s has no namespace", a.Name.Local)
+			}
+		}
+		out = append(out, a)
+	}
+	return out, nil
+}
+
 func parsePropertyAttributes(allAttrs []xml.Attr) (propAttrs, xmlAttrs, idAttrs []xml.Attr, err error) {
 	var badTerms []string
 	for _, a := range allAttrs {
-- 
2.43.0


From 3fb5d8d87f624adace8d274a4740c3b9883b2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:04 +0000
Subject: [PATCH 40/83] fix: recordinfer: a column whose times a Timestamp
 cannot represent is no timestamp column

---
 recordinfer/BUILD.bazel               |  1 +
 recordinfer/recordinfer_timestamps.go | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/recordinfer/BUILD.bazel b/recordinfer/BUILD.bazel
index afb60c5..aa71320 100644
--- a/recordinfer/BUILD.bazel
+++ b/recordinfer/BUILD.bazel
@@ -13,6 +13,7 @@ go_library(
     deps = [
         "//proto/recordtoproto",
         "@com_github_golang_protobuf//proto:go_default_library",
+        "@com_github_golang_protobuf//ptypes:go_default_library_gen",
         "@com_github_stoewer_go_strcase//:go-strcase",
     ],
 )
diff --git a/recordinfer/recordinfer_timestamps.go b/recordinfer/recordinfer_timestamps.go
index 84c7ee6..ead82b2 100644
--- a/recordinfer/recordinfer_timestamps.go
+++ b/recordinfer/recordinfer_timestamps.go
@@ -17,6 +17,7 @@ package recordinfer
 import (
 	"time"
 
+	"github.com/golang/protobuf/ptypes"
 	pb "github.com/google/xtoproto/proto/recordtoproto"
 )
 
@@ -77,16 +78,22 @@ func (t *timeColumnType) updateMapping(mapping *pb.ColumnToFieldMapping) {
 
 func (t *timeColumnType) asInferrerFunc() func(string) (columnType, error) {
 	return func(value string) (columnType, error) {
+		var parsed time.Time
 		var parseErr error
 		if t.loc == nil {
-			_, parseErr = time.Parse(t.layout, value)
+			parsed, parseErr = time.Parse(t.layout, value)
 		} else {
-			_, parseErr = time.ParseInLocation(t.layout, value, t.loc)
+			parsed, parseErr = time.ParseInLocation(t.layout, value, t.loc)
 		}
-		if parseErr == nil {
-			return t, nil
+		if parseErr != nil {
+			return nil, nil
 		}
-		return nil, nil
+		// The generated code stores the time in a Timestamp message, which
+		// cannot represent the year 0 that layouts without a year result in.
+		if _, err := ptypes.TimestampProto(parsed); err != nil {
+			return nil, nil
+		}
+		return t, nil
 	}
 }
 
-- 
2.43.0


From 24c3ceb07bf530d7a0747498c096095dbb27e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:04 +0000
Subject: [PATCH 41/83] fix: recordinfer: field names are legal identifiers,
 whatever the column name

---
 recordinfer/recordinfer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index 97a8057..adc7ccf 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -149,7 +149,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		}
 		result.columns = append(result.columns, &inferredColumn{
 			csvColumnName: cv.columnName(),
-			fieldName:     columnNameToFieldName(cv.columnName()),
+			fieldName:     legalFieldName(columnNameToFieldName(cv.columnName()), i+1),
 			columnType:    colType,
 			tag:           i + 1,
 			comment:       comment,
@@ -308,5 +308,18 @@ func columnNameToFieldName(colName string) string {
 	s = multipleUnderscores.ReplaceAllString(s, "_")
 	s = strings.TrimPrefix(s, "_")
 	s = strings.TrimSuffix(s, "_")
-	return strcase.SnakeCase(s)
+	return strings.Trim(strcase.SnakeCase(s), "_")
+}
+
+// legalFieldName returns a legal proto field identifier based on a name without
+// any illegal characters, which may be empty or start with a digit.
+func legalFieldName(name string, tag int) string {
+	switch {
+	case name == "":
+		return fmt.Sprintf("field_%d", tag)
+	case '0' <= name[0] && name[0] <= '9':
+		return "field_" + name
+	default:
+		return name
+	}
 }
-- 
2.43.0


From 63064e784437c46c26973ca131cde6b6a77e7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 42/83] fix: recordinfer: field names of different columns
 differ

---
 recordinfer/recordinfer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index adc7ccf..c4cfe88 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -140,6 +140,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		goOpts:      gOpts,
 	}
 
+	usedNames := make(map[string]bool)
 	for i := 0; i < numCols; i++ {
 		cv := &columnValues{i, b.rows}
 		comment := cv.statisticalComment()
@@ -149,7 +150,7 @@ func (b *RecordBasedInferrer) Build() (*InferredProto, error) {
 		}
 		result.columns = append(result.columns, &inferredColumn{
 			csvColumnName: cv.columnName(),
-			fieldName:     legalFieldName(columnNameToFieldName(cv.columnName()), i+1),
+			fieldName:     uniqueFieldName(legalFieldName(columnNameToFieldName(cv.columnName()), i+1), usedNames),
 			columnType:    colType,
 			tag:           i + 1,
 			comment:       comment,
@@ -311,6 +312,17 @@ func columnNameToFieldName(colName string) string {
 	return strings.Trim(strcase.SnakeCase(s), "_")
 }
 
+// uniqueFieldName adds a number to the name if the name is used already, and
+// marks the result as used.
+func uniqueFieldName(name string, used map[string]bool) string {
+	unique := name
+	for i := 2; used[unique]; i++ {
+		unique = fmt.Sprintf("%s_%d", name, i)
+	}
+	used[unique] = true
+	return unique
+}
+
 // legalFieldName returns a legal proto field identifier based on a name without
 // any illegal characters, which may be empty or start with a digit.
 func legalFieldName(name string, tag int) string {
-- 
2.43.0


From 614bef1171376c9ce89958bccb04c65b326a4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 43/83] fix: csvinfer: rows that the inferrer rejects are an
 error

---
 csvinfer/csvinfer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csvinfer/csvinfer.go b/csvinfer/csvinfer.go
index e037be9..9907d48 100644
--- a/csvinfer/csvinfer.go
+++ b/csvinfer/csvinfer.go
@@ -37,7 +37,9 @@ func InferProto(csvLines string, opts *recordinfer.Options) (*recordinfer.Inferr
 	b := recordinfer.NewRecordBasedInferrer(opts)
 
 	for _, row := range rows {
-		b.AddRow(row)
+		if err := b.AddRow(row); err != nil {
+			return nil, err
+		}
 	}
 
 	return b.Build()
-- 
2.43.0


From 1fdf7ffb175c86db8e215012862086a90dd346cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 44/83] fix: recordinfer: a numeric zone offset is not taken
 for the name of a zone

---
 recordinfer/recordinfer_timestamps.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recordinfer/recordinfer_timestamps.go b/recordinfer/recordinfer_timestamps.go
index ead82b2..c874e93 100644
--- a/recordinfer/recordinfer_timestamps.go
+++ b/recordinfer/recordinfer_timestamps.go
@@ -30,13 +30,15 @@ func candidateTimeColumnTypes(loc *time.Location) []*timeColumnType {
 		create("2006-01-02 03:04:05 PM"),
 		create("1/2/2006 3:04:05 PM"),
 		create(time.ANSIC),
-		create(time.UnixDate),
+		// Layouts with a numeric zone precede those with a zone name, because the
+		// latter match offsets like +0020 too, as a name without a known offset.
 		create(time.RubyDate),
-		create(time.RFC822),
+		create(time.UnixDate),
 		create(time.RFC822Z),
+		create(time.RFC822),
 		create(time.RFC850),
-		create(time.RFC1123),
 		create(time.RFC1123Z),
+		create(time.RFC1123),
 		create(time.RFC3339),
 		create(time.RFC3339Nano),
 		create(time.Kitchen),
-- 
2.43.0


From 1d82d7b1cb9db1e9780cb20015fc6c1b9fac2154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 45/83] fix: service: generated files stay inside the workspace

---
 service/service_generate_code.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 15c4f00..82aaf8c 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"strings"
 
 	"github.com/google/xtoproto/csvtoproto"
 	"github.com/stoewer/go-strcase"
@@ -145,5 +146,9 @@ func pathFromParts(workspace, dir, fileName string) (string, error) {
 	if fileName == "" {
 		return "", fmt.Errorf("must supply an explicit output filename, got empty string")
 	}
-	return path.Join(workspace, dir, fileName), nil
+	relative := path.Join(dir, fileName)
+	if relative == "." || relative == ".." || strings.HasPrefix(relative, "../") {
+		return "", fmt.Errorf("directory %q and fileName %q must name a file inside of workspace %q", dir, fileName, workspace)
+	}
+	return path.Join(workspace, relative), nil
 }
-- 
2.43.0


From 60a0468e13f0e79efcf0add08cf960c8b28c5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:59 +0000
Subject: [PATCH 46/83] fix: service: nothing is written when one of the output
 paths is invalid

---
 service/service_generate_code.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/service/service_generate_code.go b/service/service_generate_code.go
index 82aaf8c..93b4762 100644
--- a/service/service_generate_code.go
+++ b/service/service_generate_code.go
@@ -48,6 +48,18 @@ func (s *service) GenerateCode(ctx context.Context, req *spb.GenerateCodeRequest
 		return nil, grpc.Errorf(codes.InvalidArgument, "failed to generate code: %v", err)
 	}
 
+	// Check both paths before writing the first file.
+	if genProto {
+		if _, _, err := s.protoPath(req); err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .proto file: %v", err)
+		}
+	}
+	if genGo {
+		if _, _, err := s.converterGoPath(req); err != nil {
+			return nil, grpc.Errorf(codes.InvalidArgument, "invalid output specification for .go file: %v", err)
+		}
+	}
+
 	var outputProtoFile *spb.GenerateCodeResponse_File
 	if genProto {
 		codePath, codePathWSRelative, err := s.protoPath(req)
-- 
2.43.0


From 06a369a8f4c1d9cce0ae575045561c35003d3da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 47/83] fix: csvtoproto: no package statement for an empty
 package name

---
 csvtoproto/csvtoproto.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/csvtoproto/csvtoproto.go b/csvtoproto/csvtoproto.go
index fc302d4..61611ea 100644
--- a/csvtoproto/csvtoproto.go
+++ b/csvtoproto/csvtoproto.go
@@ -78,16 +78,19 @@ func (cg *codeGenerator) protoCode() string {
 		fieldCodeSections = append(fieldCodeSections, section)
 	}
 
-	return fmt.Sprintf(`syntax = "proto3";
+	packageStatement := ""
+	if cg.mapping.PackageName != "" {
+		packageStatement = fmt.Sprintf("package %s;\n\n", cg.mapping.PackageName)
+	}
 
-package %s;
+	return fmt.Sprintf(`syntax = "proto3";
 
-%s
+%s%s
 
 message %s {
 %s
 }
-`, cg.mapping.PackageName, importStatements(imports), cg.mapping.MessageName, strings.Join(fieldCodeSections, "\n\n"))
+`, packageStatement, importStatements(imports), cg.mapping.MessageName, strings.Join(fieldCodeSections, "\n\n"))
 }
 
 const protoWrapColumn = 80
-- 
2.43.0


From 5d49027930a2eed953ffa397c3f6ebe9b209f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 48/83] fix: csvtoproto: column names with a backquote do not
 end the struct tag

---
 csvtoproto/csvtoproto_go_codegen.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 5d806fa..2f3a5f7 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -17,6 +17,7 @@ package csvtoproto
 import (
 	"fmt"
 	"go/format"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -217,7 +218,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldType.topLevelCode != "" {
 			topLevelLines = append(topLevelLines, fieldType.topLevelCode)
 		}
-		fieldLines = append(fieldLines, fmt.Sprintf("%s %s `csv:%q`", fieldName, fieldType.typeName, c2f.GetColName()))
+		fieldLines = append(fieldLines, fmt.Sprintf("%s %s %s", fieldName, fieldType.typeName, structTagCode(c2f.GetColName())))
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
@@ -265,6 +266,15 @@ func init() {
 
 `))
 
+// structTagCode returns the Go literal of the struct tag for a column.
+func structTagCode(colName string) string {
+	tag := fmt.Sprintf("csv:%q", colName)
+	if strconv.CanBackquote(tag) {
+		return "`" + tag + "`"
+	}
+	return strconv.Quote(tag)
+}
+
 type fieldTypeCode struct {
 	// Go code to be inserted at the top level of the file.
 	topLevelCode, typeName string
-- 
2.43.0


From 7f30429f3780e624e5cfff4de1a14589c08e0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 49/83] fix: csvtoproto: code generated for duration columns
 compiles and uses the unit

---
 csvtoproto/csvtoproto_go_codegen.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 2f3a5f7..17a5915 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -311,7 +311,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
-			"unit": c2f.GetTimeFormat().GetGoLayout(),
+			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
 		})
 		if err != nil {
 			return nil, err
@@ -360,13 +360,14 @@ func (d {{.T}}) duration() time.Duration {
 }
 
 func init() {
+	const unit = {{.unit | printf "%q"}}
 	textcoder.Register(
-		reflect.TypeOf({{.T}}{}),
+		reflect.TypeOf({{.T}}(0)),
 		func(d {{.T}}) (string, error) {
-			return d.Duration().String(), nil
+			return d.duration().String(), nil
 		},
 		func(s string, dst *{{.T}}) error {
-			d, err := csvtoprotoparse.ParseDuration(s, unit)
+			d, err := time.ParseDuration(s + unit)
 			if err != nil {
 				return fmt.Errorf("error parsing {{.T}}: %w", err)
 			}
-- 
2.43.0


From 074ba581229a247e96fb0aded6a693326815a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 50/83] fix: csvtoproto: the generated record type may be
 called newRecord

---
 csvtoproto/csvtoproto_go_codegen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 17a5915..38f2a9f 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -54,7 +54,7 @@ var (
 
 {{.record_struct_definition}}
 
-func newRecord() *{{.struct_name}} { return &{{.struct_name}}{} }
+func newRow() *{{.struct_name}} { return &{{.struct_name}}{} }
 
 
 var parseRowReaderHooks []func(reader *Reader, parsedMsg *{{.message_type}}, parseErrors []error) error
@@ -82,7 +82,7 @@ type Reader struct {
 func NewReader(r io.Reader, options... csvtoprotoparse.ReaderOption) (*Reader, error) {
 	reader := csv.NewReader(r)
 
-	fileParser, err := csvcoder.NewFileParser(reader, "input.csv", newRecord())
+	fileParser, err := csvcoder.NewFileParser(reader, "input.csv", newRow())
 	if err != nil {
 		return nil, err
 	}
@@ -261,7 +261,7 @@ func (r *{{.struct_name}}) Proto() (*{{.message_type}}, error) {
 {{.field_type_declarations}}
 
 func init() {
-	csvcoder.RegisterRowStruct(reflect.TypeOf(newRecord()))
+	csvcoder.RegisterRowStruct(reflect.TypeOf(newRow()))
 }
 
 `))
-- 
2.43.0


From 4a86b68d2caf9f39d5744919bf482853e4fa05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 51/83] fix: csvtoproto: generated code uses the names that
 protoc-gen-go gives to messages and fields

---
 csvtoproto/csvtoproto_go_codegen.go | 67 +++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 38f2a9f..4189032 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -185,7 +185,7 @@ func (cg *codeGenerator) sharedTemplateParams() (map[string]string, error) {
 	return map[string]string{
 		"package":      cg.mapping.GoOptions.GoPackageName,
 		"proto_import": cg.mapping.GoOptions.ProtoImport,
-		"message_type": fmt.Sprintf("pb.%s", cg.mapping.MessageName),
+		"message_type": fmt.Sprintf("pb.%s", goCamelCase(cg.mapping.MessageName)),
 		"struct_name":  cg.recordStructTypeName(),
 	}, nil
 }
@@ -205,12 +205,17 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	fieldLines := []string{""}
 	var toProtoInitStatements, protoFieldLiterals []string
 
+	usedNames := reservedMessageNames()
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
 		if c2f.Ignored {
 			continue
 		}
 
-		fieldName := strcase.UpperCamelCase(c2f.ProtoName)
+		messageFieldName := goMessageFieldName(c2f.ProtoName, usedNames)
+		fieldName := messageFieldName
+		if fieldName == "Proto" {
+			fieldName += "_" // The record has a method of that name.
+		}
 		fieldType, err := getFieldTypeCode(c2f)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
@@ -231,7 +236,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 			toProtoInitStatements = append(toProtoInitStatements, expr.parseStatements)
 		}
 
-		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", strcase.UpperCamelCase(c2f.ProtoName), expr.valueExpr))
+		protoFieldLiterals = append(protoFieldLiterals, fmt.Sprintf("%s: %s,", messageFieldName, expr.valueExpr))
 	}
 
 	structDef := fmt.Sprintf("type %s struct{%s\n}", structName, strings.Join(fieldLines, "\n  "))
@@ -266,6 +271,62 @@ func init() {
 
 `))
 
+// reservedMessageNames returns the names that protoc-gen-go does not give to
+// the field of any message.
+func reservedMessageNames() map[string]bool {
+	return map[string]bool{
+		"Reset":               true,
+		"String":              true,
+		"ProtoMessage":        true,
+		"Marshal":             true,
+		"Unmarshal":           true,
+		"ExtensionRangeArray": true,
+		"ExtensionMap":        true,
+		"Descriptor":          true,
+	}
+}
+
+// goMessageFieldName returns the Go name that protoc-gen-go gives to a field and
+// marks it and its getter as used. It should be called for all of the fields of
+// a message in order.
+func goMessageFieldName(protoName string, used map[string]bool) string {
+	name := goCamelCase(protoName)
+	for used[name] || used["Get"+name] {
+		name += "_"
+	}
+	used[name] = true
+	used["Get"+name] = true
+	return name
+}
+
+// goCamelCase returns the Go identifier that protoc-gen-go uses for a proto
+// identifier.
+func goCamelCase(s string) string {
+	isLower := func(c byte) bool { return 'a' <= c && c <= 'z' }
+	isDigit := func(c byte) bool { return '0' <= c && c <= '9' }
+	var b []byte
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == '_' && i == 0:
+			b = append(b, 'X')
+		case c == '_' && i+1 < len(s) && isLower(s[i+1]):
+			// Skip the underscore, the next letter is capitalized.
+		case isDigit(c):
+			b = append(b, c)
+		default:
+			if isLower(c) {
+				c -= 'a' - 'A'
+			}
+			b = append(b, c)
+			for ; i+1 < len(s) && isLower(s[i+1]); i++ {
+				b = append(b, s[i+1])
+			}
+		}
+	}
+	return string(b)
+}
+
 // structTagCode returns the Go literal of the struct tag for a column.
 func structTagCode(colName string) string {
 	tag := fmt.Sprintf("csv:%q", colName)
-- 
2.43.0


From 17fe2abe60102b29e432dc36eddfe7e5a5bba5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 52/83] fix: textcoder: a text that is no int leaves the
 destination unchanged

---
 textcoder/textcoder_builtins.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/textcoder/textcoder_builtins.go b/textcoder/textcoder_builtins.go
index 231750b..f63af47 100644
--- a/textcoder/textcoder_builtins.go
+++ b/textcoder/textcoder_builtins.go
@@ -49,8 +49,11 @@ func RegisterBasicTypes(r *Registry) error {
 		func(v int) (string, error) { return strconv.Itoa(v), nil },
 		func(s string, dst *int) error {
 			i, err := strconv.Atoi(s)
+			if err != nil {
+				return err
+			}
 			*dst = i
-			return err
+			return nil
 		}))
 	putErr(r.Register(
 		reflect.TypeOf(bool(true)),
-- 
2.43.0


From 1434a5e104237ccba06b3ab5abb32707a0074df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 53/83] fix: textcoder: a text that the coder of the underlying
 type rejects leaves the destination unchanged

---
 textcoder/textcoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 7514295..3840f41 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -262,11 +262,13 @@ func (r *Registry) GetCoder(t reflect.Type) Coder {
 			},
 			decode: func(ctx *Context, text string, dst T) error {
 				dstBasicReflect := reflect.New(underlyingType)
-				err := basicCoder.DecodeText(ctx, text, dstBasicReflect.Interface())
+				if err := basicCoder.DecodeText(ctx, text, dstBasicReflect.Interface()); err != nil {
+					return err
+				}
 				// roughly equivalent to *dst = T(*dstBasic) where dst is of
 				// type T and dstBasic is of type U, and T is convertible to U.
 				reflect.ValueOf(dst).Elem().Set(dstBasicReflect.Elem().Convert(t))
-				return err
+				return nil
 			},
 		}
 	}
-- 
2.43.0


From 93d4b18e9a1635cb5ae2974e2277b75eea3cdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 54/83] fix: textcoder: UnmarshalContext passes the context to
 the decoder

---
 textcoder/textcoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index 3840f41..dd335e2 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -383,7 +383,7 @@ func UnmarshalContext(ctx *Context, value string, dst T) error {
 	if dec == nil {
 		return fmt.Errorf("no registered decoder for type %v", t)
 	}
-	return dec.DecodeText(NewContext(), value, dst)
+	return dec.DecodeText(ctx, value, dst)
 }
 
 // MarshalContext attempts to encode the value into a string using one of the
-- 
2.43.0


From 3674fafee84dbba4d4b417fd5824a9550c22811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 55/83] fix: textcoder: values whose pointer has a MarshalText
 method can be encoded

---
 textcoder/textcoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textcoder/textcoder.go b/textcoder/textcoder.go
index dd335e2..e1ef386 100644
--- a/textcoder/textcoder.go
+++ b/textcoder/textcoder.go
@@ -586,6 +586,12 @@ func (c *textEncodingCoder) DecodeText(_ *Context, text string, dst T) error {
 
 func (c *textEncodingCoder) EncodeText(_ *Context, value T) (string, error) {
 	m, ok := value.(encoding.TextMarshaler)
+	if !ok && value != nil {
+		// The method may have a pointer receiver.
+		ptr := reflect.New(reflect.TypeOf(value))
+		ptr.Elem().Set(reflect.ValueOf(value))
+		m, ok = ptr.Interface().(encoding.TextMarshaler)
+	}
 	if !ok {
 		return "", fmt.Errorf("value does not implement encoding.TextMarshaler: %v of type %v", value, reflect.TypeOf(value))
 	}
-- 
2.43.0


From b5a5ae80f9fe5746a6c04981ec2d64a0265c39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 56/83] fix: csvcoder: unexported fields are not columns

---
 csvcoder/csvcoder_row.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index f7b1ba9..3710922 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -266,6 +266,9 @@ func inferRegisteredType(t reflect.Type, opt ...RegisterOption) (*registeredType
 	var valueExtractors []func(row *Row, dst reflect.Value) error
 	for i := 0; i < t.Elem().NumField(); i++ {
 		f := t.Elem().FieldByIndex([]int{i})
+		if f.PkgPath != "" {
+			continue // Only public fields can be set.
+		}
 		if _, ok := f.Tag.Lookup("csv-skip"); ok {
 			continue
 		}
-- 
2.43.0


From 229343f6c98e3e8659896603848bd6c516f98e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 57/83] fix: csvcoder: a row that cannot be read is counted

---
 csvcoder/csvcoder_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csvcoder/csvcoder_file.go b/csvcoder/csvcoder_file.go
index 9e25c17..2fb30b1 100644
--- a/csvcoder/csvcoder_file.go
+++ b/csvcoder/csvcoder_file.go
@@ -105,10 +105,10 @@ func (fp *FileParser) Read() (interface{}, error) {
 		return nil, err
 	}
 	row := NewRow(rowVals, fp.hdr, fp.rowNum, fp.filePath)
+	fp.rowNum++
 	if err != nil {
 		return nil, row.errorf("csv.Reader error: %w", err)
 	}
-	fp.rowNum++
 
 	return fp.rt.parseRow(row)
 }
-- 
2.43.0


From bfce46062d8cc3dbfa49fc9ef86c02c07ff992e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 58/83] fix: wirepath: ParseString keeps every step of a long
 path

---
 wirepath/wirepath_from_string.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 8d296ba..7438420 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -78,6 +78,7 @@ func ParseString(wirePathLiteral string) (*WirePath, error) {
 			topLevel = elem
 		} else {
 			parent.Child = elem
+			parent = elem
 		}
 	}
 	return FromProto(topLevel)
-- 
2.43.0


From 1beb3b867eebbc576cba1c4340cd746bc6acfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 59/83] fix: wirepath: sfixed32 map keys are parsed as such

---
 wirepath/wirepath_from_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 7438420..70b5ff6 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -204,7 +204,7 @@ func setSlotBasedOnMapKeyLiteral(out *pb.WirePath, literal, typeName string) err
 		case "sint32":
 			out.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(number)}
 		case "sfixed32":
-			out.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(number)}
+			out.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(number)}
 		default:
 			panic("bug")
 		}
-- 
2.43.0


From 858887827e296ed70b777f85114a2b22da0d6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 60/83] fix: wirepath: paths can have more than one string key

---
 wirepath/wirepath_from_string.go  | 2 +-
 wirepath/wirepath_protostrings.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 70b5ff6..0345b02 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -15,7 +15,7 @@ const (
 	protobufIdentifierRegexp = `[A-Za-z][_\dA-Za-z]*`
 	mapKeywordIdentifier     = protobufIdentifierRegexp // discriminate later
 
-	stringLiteralElement = `(?:[^"]|\\.)`
+	stringLiteralElement = `(?:[^"\\]|\\.)`
 	stringLiteral        = `(?:"` + stringLiteralElement + `*")`
 
 	signedDecimalLiteral = `[\+\-]?(?:[1-9][0-9]*|0)`
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index e17ef14..eed7dff 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -31,7 +31,7 @@ const (
 		`\\([abfnrtv\\'"])` + "|" + // charEscape
 		`([^\0\n\\])` + // regular character
 		`)`
-	protobufStringLiteralDoubleQuoted = `(?:"` + protobufStringLiteralChar + `*")`
+	protobufStringLiteralDoubleQuoted = `(?:"(?:[^\0\n\\"]|\\.)*")`
 )
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
-- 
2.43.0


From a67f7a77cbc21a2b6fadacec9591e96562df916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 61/83] fix: wirepath: bool map keys print as they are parsed

---
 wirepath/wirepath.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 4e10f07..9c2dbe7 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -332,7 +332,11 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			mapKey = protoreflect.ValueOf(slot.MapKeySfixed64).MapKey()
 
 		case *pb.WirePath_MapKeyBool:
-			out.formattedSlot = formattedSlotForMapKey(fmt.Sprintf("%v", slot.MapKeyBool), protoreflect.BoolKind)
+			literal := "0"
+			if slot.MapKeyBool {
+				literal = "1"
+			}
+			out.formattedSlot = formattedSlotForMapKey(literal, protoreflect.BoolKind)
 			mapKey = protoreflect.ValueOf(slot.MapKeyBool).MapKey()
 
 		default:
-- 
2.43.0


From 01f5504c66625a6a8f5296ebc56ee8e27e11ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 62/83] fix: wirepath: string map keys print with escapes that
 are parsed

---
 wirepath/wirepath.go              |  2 +-
 wirepath/wirepath_protostrings.go | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 9c2dbe7..02078b5 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -288,7 +288,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 			}
 
 		case *pb.WirePath_MapKeyString:
-			out.formattedSlot = strconv.Quote(slot.MapKeyString)
+			out.formattedSlot = formatProtobufStringLiteral(slot.MapKeyString)
 			mapKey = protoreflect.ValueOf(slot.MapKeyString).MapKey()
 
 		case *pb.WirePath_MapKeyInt32:
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index eed7dff..3e124e7 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // const (
@@ -36,6 +37,30 @@ const (
 
 var protobufStringElemRegexp = regexp.MustCompile("^" + protobufStringLiteralChar)
 
+// formatProtobufStringLiteral returns a literal that parseProtobufStringLiteral
+// turns back into the argument.
+func formatProtobufStringLiteral(s string) string {
+	out := &strings.Builder{}
+	out.WriteByte('"')
+	for len(s) > 0 {
+		r, size := utf8.DecodeRuneInString(s)
+		switch {
+		case r == '"' || r == '\\':
+			out.WriteByte('\\')
+			out.WriteByte(s[0])
+		case strconv.IsPrint(r) && (r != utf8.RuneError || size > 1):
+			out.WriteString(s[:size])
+		default:
+			for _, b := range []byte(s[:size]) {
+				fmt.Fprintf(out, `\x%02x`, b)
+			}
+		}
+		s = s[size:]
+	}
+	out.WriteByte('"')
+	return out.String()
+}
+
 // parseProtobufStringLiteral parses a string literal according to the protobuf spec:
 // https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#letters_and_digits
 func parseProtobufStringLiteral(literal string) (string, error) {
-- 
2.43.0


From 7b6505231aff2b4b644ce92c9bfaf3fe9a0b78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 63/83] fix: wirepath: paths of more than eleven steps print in
 full

---
 wirepath/wirepath.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 02078b5..bf558a0 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -185,15 +185,10 @@ func debugString(path *WirePath, evaluatedAgainstValue protoreflect.Value, forma
 		formatOpts = &pathFormatOptions{}
 	}
 	var strs []string
-	i := 0
 	for ; path != nil && path.proto != nil; path = path.child() {
 		elem, childValue := extractPrettyPathElem(path, evaluatedAgainstValue)
 		strs = append(strs, elem.string(formatOpts))
 		evaluatedAgainstValue = childValue
-		i++
-		if i > 10 {
-			break
-		}
 	}
 	return strings.Join(strs, "/")
 }
-- 
2.43.0


From b9035ba79e832d05762a6991814a0bad49691ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 64/83] fix: wirepath: an unknown field number is an error

---
 wirepath/wirepath.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index bf558a0..965b644 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -87,6 +87,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 		m := within.ProtoReflect()
 
 		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		if fieldDescriptor == nil {
+			return protoreflect.Value{}, ctx.errorf("%s has no field with number %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
+		}
 		immediateValue = m.Get(fieldDescriptor)
 	}
 	if p.proto.GetSlot() != nil {
-- 
2.43.0


From afa7ce7d0f6188edd9cfa2410fcd635abd568403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 65/83] fix: wirepath: a negative index is an error

---
 wirepath/wirepath.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 965b644..747470a 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -98,8 +98,8 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if !ok {
 				return protoreflect.Value{}, ctx.errorf("path references element %d of a non-repeated field", slot)
 			}
-			if int(slot.RepeatedFieldOffset) >= list.Len() {
-				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot, list.Len())
+			if slot.RepeatedFieldOffset < 0 || slot.RepeatedFieldOffset >= int64(list.Len()) {
+				return protoreflect.Value{}, ctx.errorf("%d is out of range (repeated field length = %d)", slot.RepeatedFieldOffset, list.Len())
 			}
 			immediateValue = list.Get(int(slot.RepeatedFieldOffset))
 		} else if mapKey := slotMapKeyValue(p); mapKey.IsValid() {
@@ -278,7 +278,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			list, isList := immediateValue.Interface().(protoreflect.List)
 			if isList {
-				if int(slot.RepeatedFieldOffset) < list.Len() {
+				if slot.RepeatedFieldOffset >= 0 && slot.RepeatedFieldOffset < int64(list.Len()) {
 					childValue = list.Get(int(slot.RepeatedFieldOffset))
 				} else {
 					childValue = list.NewElement()
-- 
2.43.0


From 2930e60c38d10b25685cb9c2beddf75fef0d0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 66/83] fix: wirepath: a map key of another type than the map's
 is an error

---
 wirepath/wirepath.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 747470a..35f422d 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -81,12 +81,13 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 	}
 
 	var immediateValue protoreflect.Value
+	var fieldDescriptor protoreflect.FieldDescriptor
 	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
 
-		fieldDescriptor := m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
+		fieldDescriptor = m.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(p.proto.GetFieldNumber()))
 		if fieldDescriptor == nil {
 			return protoreflect.Value{}, ctx.errorf("%s has no field with number %d", m.Descriptor().FullName(), p.proto.GetFieldNumber())
 		}
@@ -112,6 +113,9 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 			if mapKey.IsValid() && !valueIsMap() {
 				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of value that is not a Map", mapKey.Interface())
 			}
+			if got, want := fieldDescriptor.MapKey().Kind(), extractSlotMapKeyKind(p.proto); got != want {
+				return protoreflect.Value{}, ctx.errorf("tried to get value of map key %v of kind %s, map has keys of kind %s", mapKey.Interface(), want, got)
+			}
 			immediateValue = immediateValue.Map().Get(mapKey)
 
 		} else {
-- 
2.43.0


From e231ea10cd82935713c8669ef962491d03fe633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 67/83] fix: wirepath: a path to the key of a map given by the
 path before it is an error

---
 wirepath/wirepath.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 35f422d..17533a8 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -350,10 +350,9 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 
 			if !isMap {
 				out.error = fmt.Errorf("specified map key for non-map value")
+			} else if fieldDescriptor == nil {
+				out.error = fmt.Errorf("specified map key for map without a field")
 			} else {
-				if fieldDescriptor == nil {
-					panic("internal assumption is incorrect - field descriptor should be available")
-				}
 				if got, want := fieldDescriptor.MapKey().Kind(), mapKeyKind; got != want {
 					out.error = fmt.Errorf("wirepath specifies map key %v of kind %s, %s key type is %s", mapKey.Interface(), want, fieldDescriptor.FullName(), got)
 				} else {
-- 
2.43.0


From bec723245d9bbf332c5fbf64c44ab97e1f71de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 68/83] fix: wirepath: a step without field number is the value
 itself

---
 wirepath/wirepath.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wirepath/wirepath.go b/wirepath/wirepath.go
index 17533a8..9a41bbe 100644
--- a/wirepath/wirepath.go
+++ b/wirepath/wirepath.go
@@ -54,6 +54,12 @@ func GetValue(p *WirePath, within proto.Message) (protoreflect.Value, error) {
 	return getValue(&getValueContext{nil, p, within})
 }
 
+// isSelf returns true if the path element refers to the value itself. SELF is
+// implied if the element is unset.
+func isSelf(proto *pb.WirePath) bool {
+	return proto.GetElement() == nil || proto.GetSpecialPath() == pb.WirePath_SELF
+}
+
 type getValueContext struct {
 	parent      *getValueContext
 	path        *WirePath
@@ -82,7 +88,7 @@ func getValue(ctx *getValueContext) (protoreflect.Value, error) {
 
 	var immediateValue protoreflect.Value
 	var fieldDescriptor protoreflect.FieldDescriptor
-	if p.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if isSelf(p.proto) {
 		immediateValue = protoreflect.ValueOfMessage(within.ProtoReflect())
 	} else {
 		m := within.ProtoReflect()
@@ -239,7 +245,7 @@ func extractPrettyPathElem(path *WirePath, value protoreflect.Value) (*pathElemP
 	out := &pathElemPretty{}
 	var immediateValue protoreflect.Value
 	var fieldDescriptor protoreflect.FieldDescriptor
-	if path == nil || path.proto == nil || path.proto.GetSpecialPath() == pb.WirePath_SELF {
+	if path == nil || path.proto == nil || isSelf(path.proto) {
 		out.self = true
 		immediateValue = value
 	} else {
-- 
2.43.0


From 135ce9b8f5bc0faf539a26ebce6609df39698871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 69/83] fix: wirepath: a quote that is not escaped ends a
 string key

---
 wirepath/wirepath_from_string.go  | 2 +-
 wirepath/wirepath_protostrings.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/wirepath/wirepath_from_string.go b/wirepath/wirepath_from_string.go
index 0345b02..70b5ff6 100644
--- a/wirepath/wirepath_from_string.go
+++ b/wirepath/wirepath_from_string.go
@@ -15,7 +15,7 @@ const (
 	protobufIdentifierRegexp = `[A-Za-z][_\dA-Za-z]*`
 	mapKeywordIdentifier     = protobufIdentifierRegexp // discriminate later
 
-	stringLiteralElement = `(?:[^"\\]|\\.)`
+	stringLiteralElement = `(?:[^"]|\\.)`
 	stringLiteral        = `(?:"` + stringLiteralElement + `*")`
 
 	signedDecimalLiteral = `[\+\-]?(?:[1-9][0-9]*|0)`
diff --git a/wirepath/wirepath_protostrings.go b/wirepath/wirepath_protostrings.go
index 3e124e7..69d062b 100644
--- a/wirepath/wirepath_protostrings.go
+++ b/wirepath/wirepath_protostrings.go
@@ -90,6 +90,9 @@ func parseProtobufStringLiteral(literal string) (string, error) {
 		unparsed = unparsed[len(groups[0]):]
 
 		if g := groups[regularCharGroup]; g != "" {
+			if g == `"` {
+				return "", fmt.Errorf("invalid string literal %s; it ends before %q", literal, unparsed)
+			}
 			out.WriteString(g)
 			continue
 		}
-- 
2.43.0


From 33fbb4368e772d2adf71e304f33e0ac5bfa81181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 70/83] fix: recordinfer: import each file once in the .proto
 code

---
 recordinfer/recordinfer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recordinfer/recordinfer.go b/recordinfer/recordinfer.go
index c4cfe88..bd35cb1 100644
--- a/recordinfer/recordinfer.go
+++ b/recordinfer/recordinfer.go
@@ -43,10 +43,16 @@ type InferredProto struct {
 // Code returns the source for a .proto file.
 func (ip *InferredProto) Code() string {
 	var imports []string
+	imported := make(map[string]bool)
 	body := ""
 	for _, col := range ip.columns {
 		body += fmt.Sprintf("%s\n", col.protoFieldCode())
-		imports = append(imports, col.columnType.protoImports()...)
+		for _, file := range col.columnType.protoImports() {
+			if !imported[file] {
+				imported[file] = true
+				imports = append(imports, fmt.Sprintf("import %q;", file))
+			}
+		}
 	}
 
 	return fmt.Sprintf(`syntax = "proto3";
-- 
2.43.0


From 48dc5ef39f8fd98316e9409b2188cd27ec100e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 71/83] fix: codegen: find and register a path under one lock

---
 codegen/codegen_imports.go | 39 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 5a2700b..4e7daae 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -79,12 +79,11 @@ func (i *Imports) AssumedPackageName(importPath string) string {
 //
 // blank may be used to suggest the importPath be imported without an alias.
 // This is typically the first suggestion.
-func (i *Imports) suggestAliases(importPath string, callback func(alias string) (keepGoing bool)) {
+func (i *Imports) suggestAliases(importPath, assumedPackageName string, callback func(alias string) (keepGoing bool)) {
 	if i.customSuggestAliases != nil {
 		i.customSuggestAliases(importPath, callback)
 		return
 	}
-	assumedPackageName := i.AssumedPackageName(importPath)
 	asAlias := func(packageName string) string {
 		if packageName == assumedPackageName {
 			return ""
@@ -115,13 +114,13 @@ func (i *Imports) suggestAliases(importPath string, callback func(alias string)
 
 // Register registers an import path so that it will be included in the output.
 func (i *Imports) Register(importPath string) *Import {
-	// First check to see if we already have an entry.
-	if got := func() *Import {
-		locked, unlock := i.lockedVersion()
-		defer unlock()
+	assumedPackageName := i.AssumedPackageName(importPath)
 
-		return locked.findByImportPath(importPath).asImport()
-	}(); got != nil {
+	locked, unlock := i.lockedVersion()
+	defer unlock()
+
+	// First check to see if we already have an entry.
+	if got := locked.findByImportPath(importPath).asImport(); got != nil {
 		return got
 	}
 
@@ -130,16 +129,16 @@ func (i *Imports) Register(importPath string) *Import {
 	// Import it:
 	var result *Import
 	var lastErr error
-	i.suggestAliases(importPath, func(alias string) (keepGoing bool) {
+	i.suggestAliases(importPath, assumedPackageName, func(alias string) (keepGoing bool) {
 		if count > iterationLimit {
 			panic(fmt.Errorf("bug with *Imports: too many suggested aliases; last error = %w", lastErr))
 		}
 		count++
 		if alias == "" {
-			result, lastErr = i.registerUnaliased(importPath)
+			result, lastErr = locked.registerUnaliased(importPath, assumedPackageName)
 			return lastErr != nil
 		}
-		result, lastErr = i.RegisterAliased(importPath, alias)
+		result, lastErr = locked.registerAliased(importPath, alias)
 		return lastErr != nil
 	})
 	return result
@@ -155,8 +154,11 @@ func (i *Imports) RegisterAliased(importPath, alias string) (*Import, error) {
 	}
 	locked, unlock := i.lockedVersion()
 	defer unlock()
+	return locked.registerAliased(importPath, alias)
+}
 
-	def := locked.findByPackageName(alias)
+func (i lockedImports) registerAliased(importPath, alias string) (*Import, error) {
+	def := i.findByPackageName(alias)
 	if def != nil && def.path == importPath {
 		return def.asImport(), nil
 	}
@@ -168,17 +170,12 @@ func (i *Imports) RegisterAliased(importPath, alias string) (*Import, error) {
 		packageName: alias,
 		isAlias:     true,
 	}
-	i.defs = append(i.defs, def)
+	i.i.defs = append(i.i.defs, def)
 	return def.asImport(), nil
 }
 
-func (i *Imports) registerUnaliased(importPath string) (*Import, error) {
-	assumedPackageName := i.AssumedPackageName(importPath)
-
-	locked, unlock := i.lockedVersion()
-	defer unlock()
-
-	def := locked.findByPackageName(assumedPackageName)
+func (i lockedImports) registerUnaliased(importPath, assumedPackageName string) (*Import, error) {
+	def := i.findByPackageName(assumedPackageName)
 	if def != nil && def.path == importPath {
 		if def.isAlias {
 			return nil, fmt.Errorf("%q already exists as an import aliased to %q, cannot register as unaliased", def.path, def.packageName)
@@ -193,7 +190,7 @@ func (i *Imports) registerUnaliased(importPath string) (*Import, error) {
 		packageName: assumedPackageName,
 		isAlias:     false,
 	}
-	i.defs = append(i.defs, def)
+	i.i.defs = append(i.i.defs, def)
 	return def.asImport(), nil
 }
 
-- 
2.43.0


From fb4e592ebf1b8af3d4db2f5790d5f698e4c4c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 72/83] fix: codegen: do not give out a blank or dot import as
 the name of a package

---
 codegen/codegen_imports.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index 4e7daae..aa28530 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -11,7 +11,10 @@ import (
 	"unicode/utf8"
 )
 
-const blankAlias = "_"
+const (
+	blankAlias = "_"
+	dotAlias   = "."
+)
 
 // Imports maintains a set of imports. The imports are safe for concurrent
 // access.
@@ -120,8 +123,10 @@ func (i *Imports) Register(importPath string) *Import {
 	defer unlock()
 
 	// First check to see if we already have an entry.
-	if got := locked.findByImportPath(importPath).asImport(); got != nil {
-		return got
+	for _, def := range i.defs {
+		if def.path == importPath && def.packageName != blankAlias && def.packageName != dotAlias {
+			return def.asImport()
+		}
 	}
 
 	const iterationLimit = 5000
-- 
2.43.0


From d3f28841270a05a4979781d94d7ef384c8ef6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 73/83] fix: codegen: register a blank import once for each
 path

---
 codegen/codegen_imports.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index aa28530..d8a0357 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -163,10 +163,12 @@ func (i *Imports) RegisterAliased(importPath, alias string) (*Import, error) {
 }
 
 func (i lockedImports) registerAliased(importPath, alias string) (*Import, error) {
-	def := i.findByPackageName(alias)
-	if def != nil && def.path == importPath {
-		return def.asImport(), nil
+	for _, def := range i.i.defs {
+		if def.path == importPath && def.packageName == alias {
+			return def.asImport(), nil
+		}
 	}
+	def := i.findByPackageName(alias)
 	if def != nil && def.asImport().Alias() != blankAlias { // allow multiple _ aliases
 		return nil, fmt.Errorf("alias %q already maps to import path %q, not %q as the caller requires", alias, def.path, importPath)
 	}
-- 
2.43.0


From 9edf8179e5f3c4ed77a468ad96d394d468d2642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 74/83] fix: codegen: name packages whose assumed name is not
 an identifier

---
 codegen/codegen_imports.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/codegen/codegen_imports.go b/codegen/codegen_imports.go
index d8a0357..8e19832 100644
--- a/codegen/codegen_imports.go
+++ b/codegen/codegen_imports.go
@@ -3,6 +3,7 @@ package codegen
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"strconv"
 	"strings"
@@ -104,6 +105,19 @@ func (i *Imports) suggestAliases(importPath, assumedPackageName string, callback
 		}
 	}
 
+	if !token.IsIdentifier(assumedPackageName) || assumedPackageName == blankAlias {
+		// Code cannot refer to the package by such a name.
+		validName := "pkg" + strings.Map(func(r rune) rune {
+			if notIdentifier(r) {
+				return '_'
+			}
+			return r
+		}, assumedPackageName)
+		preferredPackageName = func(noise string) string {
+			return validName + noise
+		}
+	}
+
 	for i := 1; ; i++ {
 		noise := ""
 		if i > 1 {
-- 
2.43.0


From 12854accf8a9b59ba00e8a895e40b08c3c132d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 75/83] fix: csvcoder: hold the lock while the registered row
 types are listed

---
 csvcoder/csvcoder_row.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csvcoder/csvcoder_row.go b/csvcoder/csvcoder_row.go
index 3710922..3904242 100644
--- a/csvcoder/csvcoder_row.go
+++ b/csvcoder/csvcoder_row.go
@@ -235,6 +235,8 @@ func getRegisteredTypeOrErr(t reflect.Type) (*registeredType, error) {
 	rt := getRegisteredType(t)
 	if rt == nil {
 		var typeStrings []string
+		defaultRegistry.registeredRowTypesLock.RLock()
+		defer defaultRegistry.registeredRowTypesLock.RUnlock()
 		for _, rt := range defaultRegistry.registeredRowTypes {
 			typeStrings = append(typeStrings, fmt.Sprintf("%v", rt))
 		}
-- 
2.43.0


From 11da5aeb64a66065e19ccc1a873a68e06c820633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 76/83] fix: csvcoder: set and read the decoder of a cell
 parser under the lock

---
 csvcoder/csvcoder_cell.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/csvcoder/csvcoder_cell.go b/csvcoder/csvcoder_cell.go
index 1b15a1e..3556235 100644
--- a/csvcoder/csvcoder_cell.go
+++ b/csvcoder/csvcoder_cell.go
@@ -68,11 +68,14 @@ type registeredCellParser struct {
 // ParseCSVCell dispatches to the underlying implementation. This indirection
 // allows newly registered cell parsers to override the older registered value.
 func (cp *registeredCellParser) ParseCSVCell(ctx *CellContext, value string, field reflect.Value) error {
-	if cp.impl != nil {
-		return cp.impl.ParseCSVCell(ctx, value, field)
+	defaultRegistryMapMutex.RLock()
+	impl, decoder := cp.impl, cp.decoder
+	defaultRegistryMapMutex.RUnlock()
+	if impl != nil {
+		return impl.ParseCSVCell(ctx, value, field)
 	}
-	if cp.decoder != nil {
-		return cp.decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
+	if decoder != nil {
+		return decoder.DecodeText(textcoder.NewContext().WithValue("csvcoder.CellContext", ctx), value, field.Interface())
 	}
 	panic("internal error in csvcoder: registeredCellParser has no implementation")
 }
@@ -85,15 +88,13 @@ func getOrCreateCellParserForType(t reflect.Type) (cellParser, error) {
 	if t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("internal error: must only pass pointers to getOrCreateCellParserForType, got %v", t)
 	}
-	
-	defaultRegistryMapMutex.RLock()
+
+	defaultRegistryMapMutex.Lock()
+	defer defaultRegistryMapMutex.Unlock()
 	parser := defaultRegistry.cellParsers[t]
-	defaultRegistryMapMutex.RUnlock()
 	if parser == nil {
 		parser = &registeredCellParser{}
-		defaultRegistryMapMutex.Lock()
 		defaultRegistry.cellParsers[t] = parser
-		defaultRegistryMapMutex.Unlock()
 	}
 	if parser.impl != nil {
 		return parser, nil
-- 
2.43.0


From 715fb92c4f4929301f43232a02f23eafc3150d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 77/83] fix: xmlinfer: keep a token that comes with the end of
 the input

---
 xmlinfer/xmlinfer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index d6876e7..48c0788 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -307,7 +307,7 @@ func (s *state) inferTopLevel() (*InferResult, error) {
 
 	for {
 		tok, err := s.tr.Token()
-		if err != nil {
+		if err != nil && tok == nil {
 			if err == io.EOF {
 				return ir, nil
 			}
@@ -361,7 +361,7 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 	}
 	for {
 		tok, err := s.tr.Token()
-		if err != nil {
+		if err != nil && tok == nil {
 			return fmt.Errorf("failed parsing XML tokens within %q: %w", sc.name, err)
 		}
 		if tok == nil {
-- 
2.43.0


From f0be3fe85d6f54151b46540dcb9fc55e75eea3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 78/83] fix: xmlinfer: do not panic for XML names that are no
 protocol buffer identifiers

---
 xmlinfer/xmlinfer.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 48c0788..6bbfe9c 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -401,9 +401,32 @@ func (s *state) consumeElementTokens(startTok xml.StartElement, sc *structCandid
 }
 
 func xmlToMessageName(xn xml.Name) string {
-	return strcase.UpperCamelCase(xn.Local)
+	return protoIdentifier(strcase.UpperCamelCase(protoWords(xn.Local)), "Element")
 }
 
 func xmlToFieldName(xn xml.Name) string {
-	return strcase.LowerCamelCase(xn.Local)
+	return protoIdentifier(strcase.LowerCamelCase(protoWords(xn.Local)), "field")
+}
+
+// protoWords replaces the characters of an XML name that cannot be part of a
+// protocol buffer identifier with delimiters.
+func protoWords(name string) string {
+	return strings.Map(func(r rune) rune {
+		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
+			return r
+		}
+		return '-'
+	}, name)
+}
+
+// protoIdentifier returns s if it can start a protocol buffer identifier and an
+// identifier derived from it otherwise.
+func protoIdentifier(s, fallback string) string {
+	if s == "" {
+		return fallback
+	}
+	if s[0] >= '0' && s[0] <= '9' {
+		return "_" + s
+	}
+	return s
 }
-- 
2.43.0


From fdfc2fe8167c6522f3a19ec978eab3d137bb93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 79/83] fix: xmlinfer: do not panic for attributes and elements
 that map to the same field name

---
 xmlinfer/xmlinfer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 6bbfe9c..4232d50 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -114,7 +114,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(attrField)
+		addFieldWithUniqueName(b, attrField)
 	}
 
 	all := []*builder.MessageBuilder{b}
@@ -124,7 +124,7 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 		if err != nil {
 			return nil, err
 		}
-		b.AddField(fieldDesc)
+		addFieldWithUniqueName(b, fieldDesc)
 		if mainChildElemMsg != nil {
 			all = append(all, mainChildElemMsg)
 		}
@@ -133,6 +133,16 @@ func (sc *structCandidate) inferredMessages() ([]*builder.MessageBuilder, error)
 	return all, nil
 }
 
+// addFieldWithUniqueName adds f to b. A number is added to the name of f if b
+// already has a field with that name.
+func addFieldWithUniqueName(b *builder.MessageBuilder, f *builder.FieldBuilder) {
+	name := f.GetName()
+	for i := 1; b.GetField(f.GetName()) != nil; i++ {
+		f.SetName(fmt.Sprintf("%s%d", name, i))
+	}
+	b.AddField(f)
+}
+
 func (sc *structCandidate) getElement(name xml.Name) *elementFieldCandidate {
 	for _, ef := range sc.elemFields {
 		if ef.sc.name == name {
-- 
2.43.0


From daee9c4a32bdbc36899259e4e5e49a3069fade9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 80/83] fix: xmlinfer: list equally frequent examples in a
 fixed order

---
 xmlinfer/xmlinfer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmlinfer/xmlinfer.go b/xmlinfer/xmlinfer.go
index 4232d50..1385d93 100644
--- a/xmlinfer/xmlinfer.go
+++ b/xmlinfer/xmlinfer.go
@@ -200,7 +200,10 @@ func topNExamplesComment(m map[string]int) string {
 		total += count
 	}
 	sort.Slice(strs, func(i int, j int) bool {
-		return m[strs[i]] > m[strs[j]]
+		if m[strs[i]] != m[strs[j]] {
+			return m[strs[i]] > m[strs[j]]
+		}
+		return strs[i] < strs[j]
 	})
 
 	if len(strs) > 5 {
-- 
2.43.0


From b98b3465bde7d0e13c3d649e12861042fdd655d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 81/83] fix: internal/protoreflectcmp: compare unset lists as
 empty lists

---
 internal/protoreflectcmp/protoreflectcmp.go | 80 ++++++++++-----------
 1 file changed, 39 insertions(+), 41 deletions(-)

diff --git a/internal/protoreflectcmp/protoreflectcmp.go b/internal/protoreflectcmp/protoreflectcmp.go
index 610b5c0..44c1262 100644
--- a/internal/protoreflectcmp/protoreflectcmp.go
+++ b/internal/protoreflectcmp/protoreflectcmp.go
@@ -106,52 +106,50 @@ func analyzeValue(v interface{}) analysis {
 	}
 	if list, ok := v.(protoreflect.List); ok {
 		a.IsList = true
-		if list.IsValid() {
-			prototypeInstance := list.NewElement().Interface()
-			switch instance := prototypeInstance.(type) {
-			case bool:
-				a.SliceElementType = boolType
-			case int32:
-				a.SliceElementType = int32Type
-			case int64:
-				a.SliceElementType = int64Type
-			case uint32:
-				a.SliceElementType = uint32Type
-			case uint64:
-				a.SliceElementType = uint64Type
-			case float32:
-				a.SliceElementType = float32Type
-			case float64:
-				a.SliceElementType = float64Type
-			case string:
-				a.SliceElementType = stringType
-			case []byte:
-				a.SliceElementType = bytesType
-			case protoreflect.EnumNumber: // protobuf tupe: EnumKind
-				a.SliceElementType = enumNumberType
+		prototypeInstance := list.NewElement().Interface()
+		switch instance := prototypeInstance.(type) {
+		case bool:
+			a.SliceElementType = boolType
+		case int32:
+			a.SliceElementType = int32Type
+		case int64:
+			a.SliceElementType = int64Type
+		case uint32:
+			a.SliceElementType = uint32Type
+		case uint64:
+			a.SliceElementType = uint64Type
+		case float32:
+			a.SliceElementType = float32Type
+		case float64:
+			a.SliceElementType = float64Type
+		case string:
+			a.SliceElementType = stringType
+		case []byte:
+			a.SliceElementType = bytesType
+		case protoreflect.EnumNumber: // protobuf tupe: EnumKind
+			a.SliceElementType = enumNumberType
+		case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
+			a.SliceElementType = protoMessageType
+			a.SliceMessageName = instance.Descriptor().FullName()
+		default:
+			panic("unsupported protoreflect.Value type")
+		}
+
+		normalizedSlice := reflect.MakeSlice(reflect.SliceOf(a.SliceElementType), list.Len(), list.Len())
+		for i := 0; i < list.Len(); i++ {
+			value := list.Get(i).Interface()
+			var sliceValue reflect.Value
+			switch castValue := value.(type) {
 			case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
-				a.SliceElementType = protoMessageType
-				a.SliceMessageName = instance.Descriptor().FullName()
+				var m proto.Message = castValue.Interface()
+				sliceValue = reflect.ValueOf(m)
 			default:
-				panic("unsupported protoreflect.Value type")
+				sliceValue = reflect.ValueOf(value)
 			}
+			normalizedSlice.Index(i).Set(sliceValue)
 
-			normalizedSlice := reflect.MakeSlice(reflect.SliceOf(a.SliceElementType), list.Len(), list.Len())
-			for i := 0; i < list.Len(); i++ {
-				value := list.Get(i).Interface()
-				var sliceValue reflect.Value
-				switch castValue := value.(type) {
-				case protoreflect.Message: // protobuf tupe: MessageKind, GroupKind
-					var m proto.Message = castValue.Interface()
-					sliceValue = reflect.ValueOf(m)
-				default:
-					sliceValue = reflect.ValueOf(value)
-				}
-				normalizedSlice.Index(i).Set(sliceValue)
-
-			}
-			a.NormalizedSlice = normalizedSlice.Interface()
 		}
+		a.NormalizedSlice = normalizedSlice.Interface()
 	} else {
 		typeOfValue := reflect.TypeOf(v)
 		typeOfValueKind := typeOfValue.Kind()
-- 
2.43.0


From c9b8226198c2720bcc4bded79d2790d05284126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 82/83] fix: give times and durations of columns like a1 and
 a_1 distinct names in generated code

---
 csvtoproto/csvtoproto_go_codegen.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 4189032..4b83763 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -206,6 +206,8 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	var toProtoInitStatements, protoFieldLiterals []string
 
 	usedNames := reservedMessageNames()
+	usedTypeNames := make(map[string]bool)
+	usedParsedNames := make(map[string]bool)
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
 		if c2f.Ignored {
 			continue
@@ -216,7 +218,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		if fieldName == "Proto" {
 			fieldName += "_" // The record has a method of that name.
 		}
-		fieldType, err := getFieldTypeCode(c2f)
+		fieldType, err := getFieldTypeCode(c2f, usedTypeNames)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
 		}
@@ -227,7 +229,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 
 		expr, err := getGoToProtoFieldExpression(
 			fmt.Sprintf("r.%s", fieldName),
-			strcase.LowerCamelCase("parsed_"+c2f.GetProtoName()),
+			uniqueGoName(strcase.LowerCamelCase("parsed_"+c2f.GetProtoName()), usedParsedNames),
 			c2f.GetProtoType())
 		if err != nil {
 			return nil, fmt.Errorf("failed to handle proto field %q", c2f.GetProtoName())
@@ -341,7 +343,18 @@ type fieldTypeCode struct {
 	topLevelCode, typeName string
 }
 
-func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
+// uniqueGoName returns the name, followed by underscores if it is used already,
+// and marks the result as used. Proto names like a1 and a_1 result in the same
+// lower camel case name.
+func uniqueGoName(name string, used map[string]bool) string {
+	for used[name] {
+		name += "_"
+	}
+	used[name] = true
+	return name
+}
+
+func getFieldTypeCode(c2f *pb.ColumnToFieldMapping, usedTypeNames map[string]bool) (*fieldTypeCode, error) {
 	switch protoType := c2f.GetProtoType(); protoType {
 	case "int32":
 		return &fieldTypeCode{"", "int32"}, nil
@@ -354,7 +367,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 	case "string":
 		return &fieldTypeCode{"", "string"}, nil
 	case "google.protobuf.Timestamp":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Time")
+		typeName := uniqueGoName(strcase.LowerCamelCase(c2f.GetProtoName()+"Time"), usedTypeNames)
 		tz := c2f.GetTimeFormat().GetTimeZoneName()
 		if tz == "" {
 			tz = "UTC"
@@ -369,7 +382,7 @@ func getFieldTypeCode(c2f *pb.ColumnToFieldMapping) (*fieldTypeCode, error) {
 		}
 		return &fieldTypeCode{code, typeName}, nil
 	case "google.protobuf.Duration":
-		typeName := strcase.LowerCamelCase(c2f.GetProtoName() + "Duration")
+		typeName := uniqueGoName(strcase.LowerCamelCase(c2f.GetProtoName()+"Duration"), usedTypeNames)
 		code, err := templateExecString(durationTypeTemplate, map[string]string{
 			"T":    typeName,
 			"unit": c2f.GetDurationFormat().GetGoUnitSuffix(),
-- 
2.43.0


From d3e78af67c640c97d5319df8631c5610f454cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 83/83] fix: give the record of a converter distinct fields for
 columns proto and proto_

---
 csvtoproto/csvtoproto_go_codegen.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/csvtoproto/csvtoproto_go_codegen.go b/csvtoproto/csvtoproto_go_codegen.go
index 4b83763..621872c 100644
--- a/csvtoproto/csvtoproto_go_codegen.go
+++ b/csvtoproto/csvtoproto_go_codegen.go
@@ -206,6 +206,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 	var toProtoInitStatements, protoFieldLiterals []string
 
 	usedNames := reservedMessageNames()
+	usedFieldNames := map[string]bool{"Proto": true} // The record has a method of that name.
 	usedTypeNames := make(map[string]bool)
 	usedParsedNames := make(map[string]bool)
 	for i, c2f := range cg.mapping.ColumnToFieldMappings {
@@ -214,10 +215,7 @@ func (cg *codeGenerator) makeStructCode() (*structCode, error) {
 		}
 
 		messageFieldName := goMessageFieldName(c2f.ProtoName, usedNames)
-		fieldName := messageFieldName
-		if fieldName == "Proto" {
-			fieldName += "_" // The record has a method of that name.
-		}
+		fieldName := uniqueGoName(messageFieldName, usedFieldNames)
 		fieldType, err := getFieldTypeCode(c2f, usedTypeNames)
 		if err != nil {
 			return nil, fmt.Errorf("failed to generate code for mapping[%d] = %v: %w", i, c2f, err)
-- 
2.43.0

