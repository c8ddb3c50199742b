// Package iri holds the harnesses for package rdf/iri (P06, P07, P08).
package iri

import (
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/iri"
	"github.com/google/xtoproto/zz_verif/nd"
)

// ---- reference: RFC 3986 appendix B split, section 5.2 resolution, 5.3 recomposition ----

type ref struct {
	scheme, auth, path, query, frag         string
	hasScheme, hasAuth, hasQuery, hasFrag bool
}

func index(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func split(s string) (r ref) {
	if i := index(s, '#'); i >= 0 {
		r.frag, r.hasFrag, s = s[i+1:], true, s[:i]
	}
	if i := index(s, '?'); i >= 0 {
		r.query, r.hasQuery, s = s[i+1:], true, s[:i]
	}
	for i := 0; i < len(s) && s[i] != '/'; i++ {
		if s[i] == ':' {
			if i > 0 {
				r.scheme, r.hasScheme, s = s[:i], true, s[i+1:]
			}
			break
		}
	}
	if len(s) >= 2 && s[0] == '/' && s[1] == '/' {
		s = s[2:]
		r.hasAuth = true
		if i := index(s, '/'); i >= 0 {
			r.auth, s = s[:i], s[i:]
		} else {
			r.auth, s = s, ""
		}
	}
	r.path = s
	return r
}

func join(r ref) string {
	s := ""
	if r.hasScheme {
		s += r.scheme + ":"
	}
	if r.hasAuth {
		s += "//" + r.auth
	}
	s += r.path
	if r.hasQuery {
		s += "?" + r.query
	}
	if r.hasFrag {
		s += "#" + r.frag
	}
	return s
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// removeDots is RFC 3986 section 5.2.4, step by step.
func removeDots(in string) string {
	out := ""
	for len(in) > 0 {
		switch {
		case hasPrefix(in, "../"):
			in = in[3:]
		case hasPrefix(in, "./"):
			in = in[2:]
		case hasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case hasPrefix(in, "/../") || in == "/..":
			if in == "/.." {
				in = "/"
			} else {
				in = in[3:]
			}
			i := len(out) - 1
			for i >= 0 && out[i] != '/' {
				i--
			}
			if i < 0 {
				i = 0
			}
			out = out[:i]
		case in == "." || in == "..":
			in = ""
		default:
			i := 1
			for i < len(in) && in[i] != '/' {
				i++
			}
			out += in[:i]
			in = in[i:]
		}
	}
	return out
}

func resolve(b, r ref) (t ref) {
	switch {
	case r.hasScheme:
		t = r
		t.path = removeDots(r.path)
		return t
	case r.hasAuth:
		t = r
		t.path = removeDots(r.path)
	default:
		t.hasAuth, t.auth = b.hasAuth, b.auth
		if r.path == "" {
			t.path = b.path
			if r.hasQuery {
				t.hasQuery, t.query = true, r.query
			} else {
				t.hasQuery, t.query = b.hasQuery, b.query
			}
		} else {
			if r.path[0] == '/' {
				t.path = removeDots(r.path)
			} else {
				m := r.path
				if b.hasAuth && b.path == "" {
					m = "/" + m
				} else {
					i := len(b.path) - 1
					for i >= 0 && b.path[i] != '/' {
						i--
					}
					m = b.path[:i+1] + m
				}
				t.path = removeDots(m)
			}
			t.hasQuery, t.query = r.hasQuery, r.query
		}
	}
	t.hasScheme, t.scheme = b.hasScheme, b.scheme
	t.hasFrag, t.frag = r.hasFrag, r.frag
	return t
}

// anyPath is any path of n characters over "/.a" that may follow the prefix.
func anyPath(prefixHasAuth bool, n int) string {
	s := nd.StrIn("/.a", n)
	if prefixHasAuth {
		nd.Assume(n == 0 || s[0] == '/')
	} else if n >= 2 {
		nd.Assume(!(s[0] == '/' && s[1] == '/'))
	}
	return s
}

func checkResolve(base, r string) {
	got := string(iri.IRI(base).ResolveReference(iri.IRI(r)))
	bs := split(base)
	if r == "" {
		// pinned by the repository's own tests: the empty reference is the base itself, fragment included
		want := bs
		want.path = bs.path
		nd.Assert(got == join(want), "empty-reference-is-base")
		nd.Reach("empty-ref")
		return
	}
	want := join(resolve(bs, split(r)))
	nd.ObsStr("got", got)
	nd.Assert(got == want, "resolve")
}

var suffixes = []string{"", "?q", "#f", "?q#f", "?", "#"}

// ResolveRelative: any base path against any relative path, for every shape of base authority.
func ResolveRelative() {
	bases := []string{"s:", "s://h", "s://", "s://u@h:1", "s://h:"}
	b := nd.Choose(len(bases))
	bp := anyPath(b != 0, nd.Choose(nd.Param("base", 3)+1))
	if b == 2 {
		nd.Assume(len(bp) > 0)
	}
	base := bases[b] + bp + suffixes[nd.Choose(2)*3]
	n := nd.Choose(nd.Param("ref", 3) + 1)
	r := anyPath(false, n) + suffixes[nd.Choose(nd.Param("suf", 2))]
	checkResolve(base, r)
	nd.Reach("relative")
}

// ResolveSuffixes: every combination of query and fragment presence in base and reference, with short paths.
func ResolveSuffixes() {
	bases := []string{"s:", "s://h", "s://u@h:1"}
	b := nd.Choose(len(bases))
	base := bases[b] + anyPath(b != 0, nd.Choose(3)) + suffixes[nd.Choose(len(suffixes))]
	r := anyPath(false, nd.Choose(2)) + suffixes[nd.Choose(len(suffixes))]
	checkResolve(base, r)
	nd.Reach("suffixes")
}

// ResolveAuthority: references with a scheme or an authority of their own.
func ResolveAuthority() {
	bases := []string{"s:a", "s://u@h:1/a/b?q#f", "s://h"}
	refs := []string{"t:", "s:", "//", "//g", "//v@g:2", "//:2", "//g:", "//v@", "t://g", "t://v@g:2", "t://", "t://g:"}
	base := bases[nd.Choose(len(bases))]
	k := nd.Choose(len(refs))
	hasAuth := k >= 2
	r := refs[k] + anyPath(hasAuth, nd.Choose(nd.Param("ref", 4)+1)) + suffixes[nd.Choose(nd.Param("suf", 2))*3]
	checkResolve(base, r)
	nd.Reach("authority")
}

// ResolveText: any reference text over the delimiters.
func ResolveText() {
	bases := []string{"s:a/b", "s://u@h:1/a/b?q#f", "s://h"}
	base := bases[nd.Choose(len(bases))]
	r := nd.StrIn("/.a:?#@1", nd.Choose(nd.Param("n", 4)+1))
	nd.Assume(refIRI(r, false))
	checkResolve(base, r)
	nd.Reach("text")
}

// ResolveBase: any base text over the delimiters, and references of every shape.
func ResolveBase() {
	base := []string{"s:", "s://", "s://u@", "s://u:p@[::1]", "s://%41:2"}[nd.Choose(5)] + nd.StrIn("/.a:?#@1", nd.Choose(nd.Param("n", 4)+1))
	nd.Assume(refIRI(base, false))
	r := []string{"", "q", "/q", "../q", "?x", "#f", "//g", "//", "t:q"}[nd.Choose(9)]
	checkResolve(base, r)
	nd.Reach("base")
}

// ResolveAbsolute: an absolute IRI without dot segments is returned unchanged, whatever the base.
func ResolveAbsolute() {
	base := []string{"s:a", "s://u@h:1/a/b?q#f"}[nd.Choose(2)]
	r := "t:" + nd.StrIn("/a:?#@1", nd.Choose(nd.Param("n", 5)+1))
	nd.Assume(refIRI(r, false))
	got := string(iri.IRI(base).ResolveReference(iri.IRI(r)))
	nd.Assert(got == r, "absolute-unchanged")
	nd.Reach("absolute")
}

// ---- reference: RFC 3987 IRI-reference ----

func alpha(c byte) bool { return nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z')) }
func digit(c byte) bool { return nd.And(c >= '0', c <= '9') }
func hexd(c byte) bool {
	return nd.Or(digit(c), nd.Or(nd.And(c >= 'a', c <= 'f'), nd.And(c >= 'A', c <= 'F')))
}
func in(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = nd.Or(r, c == set[i])
	}
	return r
}
func subDelim(c byte) bool { return in(c, "!$&'()*+,;=") }
func unres(c byte) bool    { return nd.Or(alpha(c), nd.Or(digit(c), in(c, "-._~"))) }

func ucs(r rune) bool {
	v := nd.Or(nd.And(r >= 0xA0, r <= 0xD7FF), nd.Or(nd.And(r >= 0xF900, r <= 0xFDCF), nd.And(r >= 0xFDF0, r <= 0xFFEF)))
	for p := rune(1); p <= 0xD; p++ {
		v = nd.Or(v, nd.And(r >= p<<16, r <= p<<16+0xFFFD))
	}
	return nd.Or(v, nd.And(r >= 0xE1000, r <= 0xEFFFD))
}

func private(r rune) bool {
	return nd.Or(nd.And(r >= 0xE000, r <= 0xF8FF), nd.Or(nd.And(r >= 0xF0000, r <= 0xFFFFD), nd.And(r >= 0x100000, r <= 0x10FFFD)))
}

// chars: every character of s is iunreserved, sub-delim, percent-encoded, in extra, or (if priv) iprivate.
func chars(s, extra string, priv bool) bool {
	ok := true
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			if c == '%' {
				if i+3 > len(s) {
					return false
				}
				ok = nd.And(ok, nd.And(hexd(s[i+1]), hexd(s[i+2])))
				i += 3
				continue
			}
			ok = nd.And(ok, nd.Or(unres(c), nd.Or(subDelim(c), in(c, extra))))
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if n == 1 {
			return false
		}
		x := ucs(r)
		if priv {
			x = nd.Or(x, private(r))
		}
		ok = nd.And(ok, x)
		i += n
	}
	return ok
}

// utf8OK: every maximal run of percent-encoded octets is valid UTF-8 (the package's documented restriction).
func utf8OK(s string) bool {
	var run []byte
	flush := func() bool {
		ok := utf8.Valid(run)
		run = nil
		return ok
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && hexd(s[i+1]) && hexd(s[i+2]) {
			run = append(run, byte(hexv(s[i+1])<<4|hexv(s[i+2])))
			i += 2
			continue
		}
		if !flush() {
			return false
		}
	}
	return flush()
}

func hexv(c byte) int {
	return nd.Ite(digit(c), int(c)-'0', nd.Ite(nd.And(c >= 'a', c <= 'f'), int(c)-'a'+10, int(c)-'A'+10))
}

func scheme(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := alpha(s[0])
	for i := 1; i < len(s); i++ {
		ok = nd.And(ok, nd.Or(alpha(s[i]), nd.Or(digit(s[i]), in(s[i], "+-."))))
	}
	return ok
}

func authority(s string) bool {
	if i := index(s, '@'); i >= 0 {
		if !chars(s[:i], ":", false) {
			return false
		}
		s = s[i+1:]
	}
	host, port := s, ""
	if len(s) > 0 && s[0] == '[' {
		i := index(s, ']')
		if i < 0 {
			return false
		}
		if !ipLiteral(s[1:i]) {
			return false
		}
		host = ""
		if i+1 < len(s) {
			if s[i+1] != ':' {
				return false
			}
			port = s[i+2:]
		}
	} else if i := index(s, ':'); i >= 0 {
		host, port = s[:i], s[i+1:]
	}
	ok := chars(host, "", false)
	for i := 0; i < len(port); i++ {
		ok = nd.And(ok, digit(port[i]))
	}
	return ok
}

func ipLiteral(s string) bool {
	if len(s) > 0 && in(s[0], "vV") {
		i := 1
		for i < len(s) && hexd(s[i]) {
			i++
		}
		if i == 1 || i >= len(s)-1 || s[i] != '.' {
			return false
		}
		ok := true
		for i++; i < len(s); i++ {
			ok = nd.And(ok, nd.Or(unres(s[i]), nd.Or(subDelim(s[i]), s[i] == ':')))
		}
		return ok
	}
	return ipv6(s)
}

// groups counts the 16-bit groups of a ':'-separated list (an IPv4 address may end it if v4), or -1.
func groups(s string, v4 bool) int {
	if s == "" {
		return 0
	}
	n := 0
	for {
		i := 0
		for i < len(s) && s[i] != ':' {
			i++
		}
		g := s[:i]
		if i == len(s) && v4 && index(g, '.') >= 0 {
			if !ipv4(g) {
				return -1
			}
			return n + 2
		}
		if len(g) < 1 || len(g) > 4 {
			return -1
		}
		ok := true
		for k := 0; k < len(g); k++ {
			ok = nd.And(ok, hexd(g[k]))
		}
		if !ok {
			return -1
		}
		n++
		if i == len(s) {
			return n
		}
		s = s[i+1:]
	}
}

func ipv6(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == ':' && s[i+1] == ':' {
			l, r := groups(s[:i], false), groups(s[i+2:], true)
			return l >= 0 && r >= 0 && l+r <= 7
		}
	}
	return groups(s, true) == 8
}

func ipv4(s string) bool {
	n := 0
	for {
		i := 0
		for i < len(s) && s[i] != '.' {
			i++
		}
		if !octet(s[:i]) {
			return false
		}
		n++
		if i == len(s) {
			return n == 4
		}
		s = s[i+1:]
	}
}

func octet(g string) bool {
	switch len(g) {
	case 1:
		return digit(g[0])
	case 2:
		return nd.And(nd.And(digit(g[0]), digit(g[1])), g[0] != '0')
	case 3:
		d := nd.And(digit(g[0]), nd.And(digit(g[1]), digit(g[2])))
		v := (int(g[0])-'0')*100 + (int(g[1])-'0')*10 + int(g[2]) - '0'
		return nd.And(d, nd.And(v >= 100, v <= 255))
	}
	return false
}

// refIRI decides whether s is an RFC 3987 IRI-reference (whose percent-encoded octets are valid UTF-8 if utf).
func refIRI(s string, utf bool) bool {
	r := split(s)
	if r.hasScheme && !scheme(r.scheme) {
		return false
	}
	if r.hasAuth && !authority(r.auth) {
		return false
	}
	if !r.hasScheme && !r.hasAuth {
		for i := 0; i < len(r.path) && r.path[i] != '/'; i++ {
			if r.path[i] == ':' {
				return false
			}
		}
	}
	if !chars(r.path, "/:@", false) || !chars(r.query, "/?:@", true) || !chars(r.frag, "/?:@", false) {
		return false
	}
	return !utf || utf8OK(s)
}

func checkParse(s string) {
	v, err := iri.Parse(s)
	got := err == nil
	nd.ObsBool("accepted", got)
	want := refIRI(s, true)
	nd.Assert(nd.Iff(got, want), "accepts-grammar")
	if got {
		nd.Assert(string(v) == s, "text-kept")
		nd.Assert(v.String() == "<"+s+">", "string-form")
		nd.Assert(v.Check() == nil, "check-agrees")
		nd.Reach("accepted")
	} else {
		nd.Assert(string(v) == "", "no-value-on-error")
		nd.Assert(iri.IRI(s).Check() != nil, "check-agrees")
		nd.Reach("rejected")
	}
}

// ParseBytes: every byte string of at most n bytes.
func ParseBytes() {
	checkParse(nd.Str(nd.Choose(nd.Param("n", 3) + 1)))
}

// ParseHoles: skeletons with holes of any bytes.
func ParseHoles() {
	k := nd.Param("hole", 2)
	pre := []string{"s:", "s://", "s://h/", "s:?", "s:#", "s://u", "s://h:", "s:a?b#", "a/", ""}
	post := []string{"", "@h", "/x", "?q", "#f", ":1", "\n"}
	h := nd.Str(nd.Choose(k + 1))
	checkParse(pre[nd.Choose(len(pre))] + h + post[nd.Choose(len(post))])
}

// ParseWide: one multi-byte character in each component.
func ParseWide() {
	pre := []string{"s:", "s://", "s:?", "s:#"}
	checkParse(pre[nd.Choose(len(pre))] + nd.Str(4) + []string{"", "a"}[nd.Choose(2)])
}

// ParseEscapes: percent-encoded octets, valid UTF-8 or not.
func ParseEscapes() {
	n := nd.Choose(nd.Param("n", 3)) + 1
	s := []string{"s:", "s://", "s:a?", "s:#"}[nd.Choose(4)]
	for i := 0; i < n; i++ {
		s += "%" + hexPair()
		if i == 1 {
			s += []string{"", "a"}[nd.Choose(2)]
		}
	}
	checkParse(s)
}

func hexPair() string {
	b := nd.Str(2)
	nd.Assume(nd.And(hexd(b[0]), hexd(b[1])))
	return b
}

// ParseIP: literal addresses.
func ParseIP() {
	set := "1:.afvg"
	pre := []string{"", "1:2:3:4:5:6:", "1:2:3:4:5:6:7", "::", "1::", "1:2:3:4:5::", "1:2:3:4:5:6::", "::1.2.3.", "::1.2.3.2", "1:2:3:4:5:6:1.25", "abcd", "v1.", "v"}
	p := pre[nd.Choose(len(pre))]
	h := nd.StrIn(set, nd.Choose(nd.Param("hole", 2)+1))
	checkParse("s://[" + p + h + "]" + []string{"", ":1"}[nd.Choose(2)])
	nd.Reach("ip")
}

// ParseOctet: the last octet of an embedded IPv4 address, any digits.
func ParseOctet() {
	n := nd.Choose(4)
	h := nd.StrIn("0123456789.", n)
	checkParse("s://[::1.2.3." + h + "]")
}

// ---- percent-encoding normalisation ----

func decode(s string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			out = append(out, byte(hexv(s[i+1])<<4|hexv(s[i+2])))
			i += 2
		} else {
			out = append(out, s[i])
		}
	}
	return out
}

// normal is the reference: per character of the decoded run, the character itself if iunreserved, else its octets in upper case.
func normal(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] != '%' {
			out += s[i : i+1]
			i++
			continue
		}
		var run []byte
		for i < len(s) && s[i] == '%' {
			run = append(run, byte(hexv(s[i+1])<<4|hexv(s[i+2])))
			i += 3
		}
		for len(run) > 0 {
			r, n := utf8.DecodeRune(run)
			keep := false
			if r < 0x80 {
				keep = unres(byte(r))
			} else {
				keep = ucs(r)
			}
			if keep {
				out += string(run[:n])
			} else {
				for _, b := range run[:n] {
					out += "%" + string([]byte{upper(b >> 4), upper(b & 15)})
				}
			}
			run = run[n:]
		}
	}
	return out
}

func upper(n byte) byte { return byte(nd.Ite(n < 10, int(n)+'0', int(n)-10+'A')) }

func checkNormal(s string) {
	v, err := iri.Parse(s)
	nd.Assume(err == nil)
	got := string(v.NormalizePercentEncoding())
	nd.ObsStr("got", got)
	nd.Assert(got == normal(s), "normal-form")
	d1, d2 := decode(s), decode(got)
	nd.Assert(string(d1) == string(d2), "same-octets")
	again := string(iri.IRI(got).NormalizePercentEncoding())
	nd.Assert(again == got, "idempotent")
	nd.Assert(iri.IRI(got).Check() == nil, "still-accepted")
	nd.Reach("normalised")
}

// Normalize: runs of percent-encoded octets with any hex digits.
func Normalize() {
	n := nd.Choose(nd.Param("n", 3)) + 1
	s := []string{"s:", "s:?"}[nd.Choose(nd.Param("pre", 2))]
	for i := 0; i < n; i++ {
		s += "%" + hexPair()
	}
	checkNormal(s + []string{"", "a"}[nd.Choose(2)])
}

// NormalizeMixed: octets between any other characters.
func NormalizeMixed() {
	n := nd.Param("n", 3)
	s := []string{"s:", "s://h/", "s:a?", "s:#"}[nd.Choose(4)]
	for i := 0; i < n; i++ {
		if nd.Choose(2) == 0 {
			s += "%" + hexPair()
		} else {
			c := nd.Str(1)
			nd.Assume(nd.And(c[0] < 0x80, nd.Or(unres(c[0]), nd.Or(subDelim(c[0]), c[0] == '/'))))
			s += c
		}
	}
	checkNormal(s)
}

// NormalizeInvalid: text that is refused is returned unchanged, never changed in meaning.
func NormalizeInvalid() {
	n := nd.Choose(nd.Param("n", 3)) + 1
	s := "s:"
	for i := 0; i < n; i++ {
		s += "%" + hexPair()
	}
	_, err := iri.Parse(s)
	nd.Assume(err != nil)
	nd.Assert(string(iri.IRI(s).NormalizePercentEncoding()) == s, "refused-unchanged")
	nd.Reach("invalid")
}
