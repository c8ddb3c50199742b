// Package sexpr holds the harnesses for package sexpr (P04, P05): the reader is compared with a reference reader.
package sexpr

import (
	"fmt"
	"go/constant"
	"io"

	"github.com/google/xtoproto/sexpr"
	"github.com/google/xtoproto/sexpr/form"
	"github.com/google/xtoproto/zz_verif/nd"
)

// ---- reference reader ----

type kind int

const (
	kList kind = iota
	kString
	kToken // number or symbol
	kQuote // 'x
	kQuoteSym
)

type node struct {
	k          kind
	start, end int // rune offsets, [start, end)
	val        []rune
	kids       []*node
}

type refReader struct {
	in  []rune
	pos int
	// skip: the input uses something the properties leave open
	open bool
}

type refErr int

const (
	refOK refErr = iota
	refEOF
	refBad
)

func (r *refReader) at(i int) rune {
	if i < len(r.in) {
		return r.in[i]
	}
	return -1
}

// next reads one substantive form.
func (r *refReader) next() (*node, refErr) {
	for {
		c := r.at(r.pos)
		switch {
		case c == -1:
			return nil, refEOF
		case c == ' ' || c == '\t' || c == '\n':
			r.pos++
			continue
		case c == '/' && r.at(r.pos+1) == '/':
			r.pos += 2
			for r.at(r.pos) != -1 && r.at(r.pos) != '\n' {
				r.pos++
			}
			continue
		case c == '/' && r.at(r.pos+1) == '*':
			r.pos += 2
			for {
				if r.at(r.pos) == -1 {
					return nil, refBad
				}
				if r.at(r.pos) == '*' && r.at(r.pos+1) == '/' {
					r.pos += 2
					break
				}
				r.pos++
			}
			continue
		case c == '(':
			n := &node{k: kList, start: r.pos}
			r.pos++
			for {
				k, e := r.nextOrClose()
				if e == refEOF {
					return nil, refBad
				}
				if e != refOK {
					return nil, e
				}
				if k == nil {
					n.end = r.pos
					return n, refOK
				}
				n.kids = append(n.kids, k)
			}
		case c == ')':
			return nil, refBad
		case c == '\'':
			n := &node{k: kQuote, start: r.pos}
			r.pos++
			q := &node{k: kQuoteSym, start: n.start, end: r.pos}
			k, e := r.next()
			if e != refOK {
				return nil, refBad
			}
			n.kids = []*node{q, k}
			n.end = r.pos
			return n, refOK
		case c == '"':
			return r.str()
		}
		n := &node{k: kToken, start: r.pos}
		for {
			c := r.at(r.pos)
			if c == -1 || c == ' ' || c == '\t' || c == '\n' || c == '(' || c == ')' || c == '"' {
				break
			}
			if c == '/' && (r.at(r.pos+1) == '/' || r.at(r.pos+1) == '*') {
				break
			}
			n.val = append(n.val, c)
			r.pos++
		}
		n.end = r.pos
		return n, refOK
	}
}

// nextOrClose reads a form of a list, or its closing parenthesis (nil).
func (r *refReader) nextOrClose() (*node, refErr) {
	// whitespace and comments before a parenthesis
	save := r.pos
	n, e := r.next()
	if e == refBad && r.at(r.pos) == ')' && !r.failedInside(save) {
		r.pos++
		return nil, refOK
	}
	return n, e
}

// failedInside tells whether the failing read had consumed more than whitespace and comments.
func (r *refReader) failedInside(from int) bool {
	i := from
	for i < r.pos {
		c := r.at(i)
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '/' && r.at(i+1) == '/':
			for i < r.pos && r.at(i) != '\n' {
				i++
			}
		case c == '/' && r.at(i+1) == '*':
			i += 2
			for i < r.pos && !(r.at(i) == '*' && r.at(i+1) == '/') {
				i++
			}
			i += 2
		default:
			return true
		}
	}
	return false
}

func hexVal(c rune) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (r *refReader) str() (*node, refErr) {
	n := &node{k: kString, start: r.pos}
	r.pos++
	bad := false
	for {
		c := r.at(r.pos)
		switch {
		case c == -1:
			return nil, refBad
		case c == '"':
			r.pos++
			n.end = r.pos
			if bad {
				return nil, refBad
			}
			return n, refOK
		case c == '\\':
			e := r.at(r.pos + 1)
			r.pos += 2
			switch {
			case e == -1:
				return nil, refBad
			case e == '\n':
				r.open = true // a backslash before a line break
			case e == 'n':
				n.val = append(n.val, '\n')
			case e == 't':
				n.val = append(n.val, '\t')
			case e == 'r':
				n.val = append(n.val, '\r')
			case e == 'a':
				n.val = append(n.val, 7)
			case e == 'b':
				n.val = append(n.val, 8)
			case e == 'f':
				n.val = append(n.val, 12)
			case e == 'v':
				n.val = append(n.val, 11)
			case e == '\\' || e == '"':
				n.val = append(n.val, e)
			case e == 'x':
				h, l := hexVal(r.at(r.pos)), hexVal(r.at(r.pos+1))
				if h < 0 || l < 0 {
					bad = true
					break
				}
				if h >= 8 {
					r.open = true // a byte that is no character by itself
				}
				n.val = append(n.val, rune(h*16+l))
				r.pos += 2
			case e >= '0' && e <= '9' || e == 'u' || e == 'U':
				r.open = true // octal and long escapes
			default:
				bad = true
			}
		default:
			n.val = append(n.val, c)
			r.pos++
		}
	}
}

// ---- comparison ----

func (r *refReader) lineCol(off int) (int, int) {
	l, c := 1, 1
	for i := 0; i < off; i++ {
		if r.in[i] == '\n' {
			l++
			c = 1
		} else {
			c++
		}
	}
	return l, c
}

func (r *refReader) spanText(start, end int) string {
	sl, sc := r.lineCol(start)
	el, ec := r.lineCol(end)
	if sl == el {
		return fmt.Sprintf("f:%d:%d-%d", sl, sc, ec)
	}
	return fmt.Sprintf("f:%d:%d-%d:%d", sl, sc, el, ec)
}

type opts struct{ spans, values bool }

func (r *refReader) compare(f form.Form, n *node, o opts) {
	if o.spans {
		nd.Assert(f.SourcePosition().String() == r.spanText(n.start, n.end), "span")
	}
	switch n.k {
	case kList, kQuote:
		l, ok := f.(form.List)
		nd.Assert(ok, "list-kind")
		nd.Assert(l.Len() == len(n.kids), "list-length")
		subs := form.Subforms(l)
		for i, k := range n.kids {
			r.compare(subs[i], k, o)
		}
		nd.Reach("list")
	case kQuoteSym:
		s, ok := f.(form.Symbol)
		nd.Assert(ok && s.SymbolLiteral() == "QUOTE", "quote-symbol")
	case kString:
		s, ok := f.(form.String)
		nd.Assert(ok, "string-kind")
		if o.values {
			nd.Assert(s.StringValue() == string(n.val), "string-value")
			nd.Assert(s.Value() == s.StringValue(), "string-value-of-form")
		}
		nd.Reach("string")
	case kToken:
		_, isStr := f.(form.String)
		_, isList := f.(form.List)
		nd.Assert(!isStr && !isList, "token-kind")
		if !o.values {
			return
		}
		if v, neg, isInt := intToken(n.val); isInt {
			num, ok := f.(form.Number)
			nd.Assert(ok, "number-kind")
			got, exact := constant.Int64Val(num.Number())
			want := v
			if neg {
				want = -v
			}
			nd.Assert(exact && got == want, "number-value")
			nd.Reach("number")
			return
		}
		if plainSymbol(n.val) {
			s, ok := f.(form.Symbol)
			nd.Assert(ok, "symbol-kind")
			nd.Assert(s.SymbolLiteral() == string(n.val), "symbol-spelling")
			nd.Reach("symbol")
			return
		}
		if s, ok := f.(form.Symbol); ok {
			nd.Assert(s.SymbolLiteral() == string(n.val), "symbol-spelling")
			nd.Assert(n.val[0] < '0' || n.val[0] > '9', "digit-first-is-no-symbol")
		}
	}
}

// intToken: decimal (no leading zero) and 0x integers.
func intToken(t []rune) (v int64, neg, ok bool) {
	i := 0
	if t[0] == '-' || t[0] == '+' {
		neg = t[0] == '-'
		i++
	}
	if i == len(t) {
		return 0, false, false
	}
	base := int64(10)
	if t[i] == '0' && i+1 < len(t) {
		switch i++; t[i] {
		case 'x', 'X':
			base = 16
		case 'o', 'O':
			base = 8
		case 'b', 'B':
			base = 2
		default:
			base = 8
			i--
		}
		i++
		if i == len(t) {
			return 0, false, false
		}
	}
	for _, c := range t[i:] {
		h := int64(hexVal(c))
		if h < 0 || h >= base {
			return 0, false, false
		}
		v = v*base + h
	}
	return v, neg, true
}

// plainSymbol: cannot be read as a number in any notation.
func plainSymbol(t []rune) bool {
	c := t[0]
	return !(c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.')
}

func check(in []rune, text string, o opts) {
	ref := &refReader{in: in}
	fr := sexpr.NewFileReader("f", text)
	for {
		want, e := ref.next()
		if ref.open {
			nd.Reach("open")
			return
		}
		got, err := fr.ReadForm()
		switch e {
		case refEOF:
			nd.Assert(got == nil && err == io.EOF, "end-of-input")
			nd.Reach("eof")
			return
		case refBad:
			nd.Assert(err != nil && err != io.EOF, "error-reported")
			nd.Reach("error")
			return
		}
		if want.k == kToken && !plainSymbol(want.val) {
			if _, _, isInt := intToken(want.val); !isInt {
				// other number notations may be refused
				if err != nil && err != io.EOF {
					return
				}
			}
		}
		if hasNonIntToken(want) && err != nil && err != io.EOF {
			return
		}
		nd.Assert(err == nil, "form-read")
		ref.compare(got, want, o)
	}
}

func hasNonIntToken(n *node) bool {
	if n.k == kToken && !plainSymbol(n.val) {
		_, _, isInt := intToken(n.val)
		return !isInt
	}
	for _, k := range n.kids {
		if hasNonIntToken(k) {
			return true
		}
	}
	return false
}

func gen(set string) ([]rune, string) {
	n := nd.Choose(nd.Param("n", 4) + 1)
	b := make([]byte, n)
	in := make([]rune, n)
	for i := range b {
		b[i] = nd.ByteIn(set)
		in[i] = rune(b[i])
	}
	return in, string(b)
}

// Structure: nesting, strings, comments and whitespace over a small alphabet.
func Structure() {
	in, text := gen("()\"\\ \n/*'a")
	check(in, text, opts{values: true})
}

// Comments: comment and symbol boundaries.
func Comments() {
	in, text := gen("/*\na (")
	check(in, text, opts{values: true})
}

// Strings: one string with any ASCII contents.
func Strings() {
	n := nd.Choose(nd.Param("n", 4) + 1)
	b := []byte{'"'}
	for i := 0; i < n; i++ {
		c := nd.Byte()
		nd.Assume(c < 0x80 && c != '\r')
		b = append(b, c)
	}
	b = append(b, '"')
	in := make([]rune, len(b))
	for i := range b {
		in[i] = rune(b[i])
	}
	check(in, string(b), opts{values: true})
}

// Tokens: symbols and numbers over the characters numbers are made of.
func Tokens() {
	in, text := gen("01279-+xaf z/")
	check(in, text, opts{values: true})
}

// Words: symbols made of letters (words with a meaning as floating-point numbers included).
func Words() {
	n := 1 + nd.Choose(nd.Param("n", 4))
	b := make([]byte, n)
	in := make([]rune, n)
	for i := range b {
		b[i] = nd.Byte()
		nd.Assume(nd.Or(nd.And(b[i] >= 'a', b[i] <= 'z'), nd.And(b[i] >= 'A', b[i] <= 'Z')))
		in[i] = rune(b[i])
	}
	check(in, string(b), opts{values: true})
}

// Spans: the position text of every form against the reference reader, multi-byte characters included.
func Spans() {
	n := nd.Choose(nd.Param("n", 4) + 1)
	var in []rune
	text := ""
	for i := 0; i < n; i++ {
		if nd.Param("multi", 1) > i && nd.Choose(2) == 1 {
			in = append(in, 'π')
			text += "π"
			continue
		}
		c := nd.ByteIn("()\" \n/*'a")
		in = append(in, rune(c))
		text += string([]byte{c})
	}
	check(in, text, opts{spans: true})
}

// AnyBytes: any bytes at all: no panic, no hang, and reading ends in io.EOF or another error after finitely many forms.
func AnyBytes() {
	n := nd.Choose(nd.Param("n", 3) + 1)
	text := nd.Str(n)
	fr := sexpr.NewFileReader("f", text)
	for i := 0; ; i++ {
		nd.Assert(i <= n, "at-most-one-form-per-byte")
		f, err := fr.ReadForm()
		if err != nil {
			nd.Assert(f == nil, "no-form-with-error")
			nd.Reach("end")
			return
		}
		nd.Assert(f != nil && f.SourcePosition() != nil, "form")
	}
}

// template replaces every '?' of one of the skeletons by any character of set.
func template(skels []string, set string) ([]rune, string) {
	sk := skels[nd.Choose(len(skels))]
	b := []byte(sk)
	in := make([]rune, len(b))
	for i := range b {
		if b[i] == '?' {
			b[i] = nd.ByteIn(set)
		}
		in[i] = rune(b[i])
	}
	return in, string(b)
}

var skeletons = []string{
	"(a (b ?? c) ?) d",
	"\"a?\\\\?b\" ?\"c\"",
	"/* a ?? */ ?b",
	"x // ?\" \n ?(y)",
	"((()?)? a)?",
	"'('a ?b)? c",
	"(a 'b '(? c)) ?",
	"\n\n (\"x\n?\" ?\n) z",
	"(a /* ) ? */ b // ) ?\n c) d",
	"a/?b/?c (/?)",
	"(1 -2?3 (0x1?)) ?",
	"(\t\"?\\n\"?\"\"\n'x\n)",
	"/*?*?/ a /**/?b",
}

// Templates: longer texts with any characters in the holes.
func Templates() {
	in, text := template(skeletons, "()\"\\ \n/*'a1")
	check(in, text, opts{values: true, spans: nd.Param("spans", 0) != 0})
}

// BigNumbers: integers at the limits of the 64-bit types keep their value.
func BigNumbers() {
	neg := nd.Bool()
	digits := []string{"184467440737095516??", "92233720368547758??", "99999999999999999??"}[nd.Choose(3)]
	text := ""
	var v, limit uint64
	over := false
	for i := 0; i < len(digits); i++ {
		c := digits[i]
		if c == '?' {
			c = nd.ByteIn("0123456789")
		}
		text += string([]byte{c})
		d := uint64(c - '0')
		over = nd.Or(over, nd.Or(v > 1844674407370955161, nd.And(v == 1844674407370955161, d > 5)))
		v = v*10 + d
	}
	limit = 1 << 63
	if neg {
		text = "-" + text
	}
	nd.Assume(!over)
	if neg {
		nd.Assume(v <= limit)
	}
	f, err := sexpr.NewFileReader("f", text).ReadForm()
	nd.Assert(err == nil, "read")
	n, ok := f.(form.Number)
	nd.Assert(ok, "number")
	if neg {
		got, exact := constant.Int64Val(n.Number())
		nd.Assert(exact && got == -int64(v), "negative-value")
		nd.Reach("negative")
	} else {
		got, exact := constant.Uint64Val(n.Number())
		nd.Assert(exact && got == v, "value")
		nd.Reach("positive")
	}
}

// Based: integers with a sign and the prefix of a base.
func Based() {
	text := []string{"", "-", "+"}[nd.Choose(3)] + []string{"0x", "0X", "0b", "0B", "0o", "0O", "0"}[nd.Choose(7)]
	n := 1 + nd.Choose(nd.Param("n", 3))
	for i := 0; i < n; i++ {
		text += string([]byte{nd.ByteIn("0123456789abcdefABCDEF")})
	}
	in := []rune{}
	for i := 0; i < len(text); i++ {
		in = append(in, rune(text[i]))
	}
	check(in, text, opts{values: true})
}

// Floats: decimal numbers with a point or an exponent have the nearest value.
func Floats() {
	digits := "0123456789"
	text, m, k := "", int64(0), 0
	neg := nd.Choose(2) == 1
	point := nd.Choose(3)
	for i := 0; i < 2; i++ {
		if i == point {
			text += "."
		}
		d := nd.Choose(10)
		text += digits[d : d+1]
		m = m*10 + int64(d)
		if i >= point {
			k--
		}
	}
	if point == 2 || nd.Choose(2) == 1 {
		e := nd.Choose(3)
		text += []string{"e", "E"}[nd.Choose(2)]
		if nd.Choose(2) == 1 {
			text += "-"
			k -= e * 7
		} else {
			k += e * 7
		}
		text += []string{"0", "7", "14"}[e]
	}
	want := float64(m) // both this and the power of ten are exact
	p := float64(1)
	for i := 0; i < k || i < -k; i++ {
		p *= 10
	}
	if k < 0 {
		want /= p
	} else {
		want *= p
	}
	if neg {
		text = "-" + text
		want = -want
	}
	f, err := sexpr.NewFileReader("f", text).ReadForm()
	nd.Assert(err == nil, "float-read")
	n, ok := f.(form.Number)
	nd.Assert(ok, "float-is-a-number")
	got, _ := constant.Float64Val(n.Number())
	nd.Assert(got == want, "float-value")
	nd.Reach("float")
}
