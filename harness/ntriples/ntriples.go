// Package ntriples holds the harnesses for package rdf/ntriples (P09, P10, P11).
package ntriples

import (
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/iri"
	nt "github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/zz_verif/nd"
)

const (
	xsdString  = "http://www.w3.org/2001/XMLSchema#string"
	langString = "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"
)

// ---- character classes of the N-Triples grammar ----

func digit(c rune) bool { return nd.And(c >= '0', c <= '9') }
func alpha(c rune) bool { return nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z')) }
func hexd(c byte) bool {
	return nd.Or(nd.And(c >= '0', c <= '9'), nd.Or(nd.And(c >= 'a', c <= 'f'), nd.And(c >= 'A', c <= 'F')))
}
func rng(r rune, lohi ...rune) bool {
	v := false
	for i := 0; i < len(lohi); i += 2 {
		v = nd.Or(v, nd.And(r >= lohi[i], r <= lohi[i+1]))
	}
	return v
}
func pnBase(r rune) bool {
	return nd.Or(alpha(r), rng(r, 0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F,
		0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF))
}
func pnU(r rune) bool { return nd.Or(pnBase(r), nd.Or(r == '_', r == ':')) }
func pn(r rune) bool {
	return nd.Or(pnU(r), nd.Or(digit(r), nd.Or(r == '-', rng(r, 0xB7, 0xB7, 0x300, 0x36F, 0x203F, 0x2040))))
}
func iriChar(r rune) bool {
	return nd.And(r > 0x20, nd.And(nd.And(nd.And(r != '<', r != '>'), nd.And(r != '"', r != '{')), nd.And(nd.And(r != '}', r != '|'), nd.And(nd.And(r != '^', r != '`'), r != '\\'))))
}

// label: s is a blank node label.
func label(s string) bool {
	rs := []rune(s)
	if len(rs) == 0 {
		return false
	}
	ok := nd.Or(pnU(rs[0]), digit(rs[0]))
	for i := 1; i < len(rs); i++ {
		if i+1 < len(rs) {
			ok = nd.And(ok, nd.Or(pn(rs[i]), rs[i] == '.'))
		} else {
			ok = nd.And(ok, pn(rs[i]))
		}
	}
	return ok
}

// langTag: [a-zA-Z]+ ('-' [a-zA-Z0-9]+)*
func langTag(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := rune(s[i])
		if i == 0 || i+1 == len(s) {
			ok = nd.And(ok, c != '-')
		}
		if i > 0 {
			ok = nd.And(ok, nd.Not(nd.And(c == '-', s[i-1] == '-')))
		}
		ok = nd.And(ok, nd.Or(alpha(c), nd.Or(digit(c), c == '-')))
	}
	// no digit before the first '-'
	seen := false
	for i := 0; i < len(s); i++ {
		seen = nd.Or(seen, s[i] == '-')
		ok = nd.And(ok, nd.Or(seen, nd.Not(digit(rune(s[i])))))
	}
	return ok
}

func validIRI(s string) bool {
	if len(s) == 0 || !utf8.ValidString(s) {
		return false
	}
	ok := true
	for _, r := range s {
		ok = nd.And(ok, iriChar(r))
	}
	return ok
}

// ---- P09: round trip ----

func anyIRI(n int) nt.IRI {
	s := "h:" + nd.Str(n)
	nd.Assume(validIRI(s))
	v := iri.IRI(s)
	nd.Assume(v.NormalizePercentEncoding() == v)
	return v
}

func anyLabel(n int) nt.BlankNodeID {
	s := nd.Str(n)
	nd.Assume(utf8.ValidString(s))
	nd.Assume(label(s))
	return nt.BlankNodeID(s)
}

func anyLex(n int) string {
	s := nd.Str(n)
	nd.Assume(utf8.ValidString(s))
	return s
}

func roundTrip(t *nt.Triple) {
	line := t.String()
	nd.ObsStr("line", line)
	for i := 0; i < len(line); i++ {
		nd.Assert(nd.And(line[i] != '\n', line[i] != '\r'), "single-line")
	}
	got, c, err := nt.ParseLine(line)
	nd.Assert(err == nil, "parses-back")
	nd.Assert(c == nil, "not-a-comment")
	nd.Assert(nt.TriplesEqual(t, got), "equal")
	// the same, field by field
	a, b := t.Subject(), got.Subject()
	nd.Assert(nd.And(a.IsIRI() == b.IsIRI(), nd.And(a.IRI() == b.IRI(), a.BlankNodeID() == b.BlankNodeID())), "subject")
	nd.Assert(t.Predicate() == got.Predicate(), "predicate")
	o, p := t.Object(), got.Object()
	nd.Assert(o.IsLiteral() == p.IsLiteral(), "object-kind")
	if o.IsLiteral() {
		x, y := o.Literal(), p.Literal()
		nd.Assert(x.LexicalForm() == y.LexicalForm(), "lexical-form")
		nd.Assert(x.Datatype() == y.Datatype(), "datatype")
		nd.Assert(x.LanguageTag() == y.LanguageTag(), "language")
		nd.Reach("literal")
	} else {
		nd.Assert(nd.And(o.IRI() == p.IRI(), o.BlankNodeID() == p.BlankNodeID()), "object")
		nd.Reach("node")
	}
	nd.Assert(got.String() == line, "prints-the-same")
	ts, err := nt.ParseLines([]string{line})
	nd.Assert(err == nil && len(ts) == 1 && nt.TriplesEqual(ts[0], t), "parse-lines")
}

var aSubj, aPred = nt.NewSubjectBlankNodeID("s"), nt.IRI("h:p")

// RoundLiteral: literals with any lexical form.
func RoundLiteral() {
	n := nd.Choose(nd.Param("lex", 3) + 1)
	lex := anyLex(n)
	var l nt.Literal
	switch nd.Choose(3) {
	case 0:
		l = nt.NewLiteral(lex, nt.XMLSchemaString, "")
	case 1:
		l = nt.NewLiteral(lex, nt.LangString, "en-US")
	case 2:
		l = nt.NewLiteral(lex, "h:t", "")
	}
	roundTrip(nt.NewTriple(aSubj, aPred, nt.NewObjectLiteral(l)))
}

// RoundTags: any language tag and any datatype.
func RoundTags() {
	if nd.Choose(2) == 0 {
		n := nd.Choose(nd.Param("tag", 5)) + 1
		tag := nd.Str(n)
		nd.Assume(langTag(tag))
		roundTrip(nt.NewTriple(aSubj, aPred, nt.NewObjectLiteral(nt.NewLiteral("a", nt.LangString, tag))))
		nd.Reach("tag")
		return
	}
	roundTrip(nt.NewTriple(aSubj, aPred, nt.NewObjectLiteral(nt.NewLiteral("a", anyIRI(nd.Choose(nd.Param("iri", 2)+1)), ""))))
	nd.Reach("datatype")
}

// RoundNodes: any IRIs and blank node labels in every position.
func RoundNodes() {
	s, p, o := aSubj, aPred, nt.NewObjectBlankNodeID("o")
	k, n := nd.Param("k", 3), nd.Param("iri", 2)
	switch nd.Choose(5) {
	case 0:
		s = nt.NewSubjectBlankNodeID(anyLabel(nd.Choose(k) + 1))
	case 1:
		s = nt.NewSubjectIRI(anyIRI(nd.Choose(n + 1)))
	case 2:
		p = anyIRI(nd.Choose(n + 1))
	case 3:
		o = nt.NewObjectBlankNodeID(anyLabel(nd.Choose(k) + 1))
	case 4:
		o = nt.NewObjectIRI(anyIRI(nd.Choose(n + 1)))
	}
	roundTrip(nt.NewTriple(s, p, o))
}

// ---- P10: reference line parser ----

type term struct {
	kind           byte // 'i', 'b', 'l'
	text, dt, lang string
}

type rp struct {
	s   string
	pos int
}

func (p *rp) ws() {
	for p.pos < len(p.s) && (p.s[p.pos] == ' ' || p.s[p.pos] == '\t') {
		p.pos++
	}
}

func (p *rp) at(c byte) bool { return p.pos < len(p.s) && p.s[p.pos] == c }

func hexv(c byte) int {
	return nd.Ite(nd.And(c >= '0', c <= '9'), int(c)-'0', nd.Ite(nd.And(c >= 'a', c <= 'f'), int(c)-'a'+10, int(c)-'A'+10))
}

// uchar reads \uXXXX or \UXXXXXXXX at pos.
func (p *rp) uchar() (rune, bool) {
	n := 0
	if p.pos+1 < len(p.s) && p.s[p.pos+1] == 'u' {
		n = 4
	} else if p.pos+1 < len(p.s) && p.s[p.pos+1] == 'U' {
		n = 8
	} else {
		return 0, false
	}
	if p.pos+2+n > len(p.s) {
		return 0, false
	}
	v := 0
	for i := 0; i < n; i++ {
		c := p.s[p.pos+2+i]
		if !hexd(c) {
			return 0, false
		}
		v = v<<4 | hexv(c)
	}
	if !nd.And(v <= 0x10FFFF, nd.Or(v < 0xD800, v > 0xDFFF)) {
		return 0, false
	}
	p.pos += 2 + n
	return rune(v), true
}

func (p *rp) iri() (term, bool) {
	if !p.at('<') {
		return term{}, false
	}
	p.pos++
	out := ""
	for {
		if p.pos >= len(p.s) {
			return term{}, false
		}
		c := p.s[p.pos]
		if c == '>' {
			p.pos++
			break
		}
		var r rune
		if c == '\\' {
			x, ok := p.uchar()
			if !ok {
				return term{}, false
			}
			r = x
		} else {
			x, n := utf8.DecodeRuneInString(p.s[p.pos:])
			r = x
			p.pos += n
		}
		if !iriChar(r) {
			return term{}, false
		}
		out += string(r)
	}
	if out == "" {
		return term{}, false
	}
	return term{kind: 'i', text: string(iri.IRI(out).NormalizePercentEncoding())}, true
}

func (p *rp) blank() (term, bool) {
	if !p.at('_') {
		return term{}, false
	}
	p.pos++
	if !p.at(':') {
		return term{}, false
	}
	p.pos++
	start, end := p.pos, -1
	for i := p.pos; i < len(p.s); {
		r, n := utf8.DecodeRuneInString(p.s[i:])
		if i == start {
			if !nd.Or(pnU(r), digit(r)) {
				break
			}
			end = i + n
		} else if pn(r) {
			end = i + n
		} else if r != '.' {
			break
		}
		i += n
	}
	if end < 0 {
		return term{}, false
	}
	p.pos = end
	return term{kind: 'b', text: p.s[start:end]}, true
}

func (p *rp) literal() (term, bool) {
	if !p.at('"') {
		return term{}, false
	}
	p.pos++
	out := ""
	for {
		if p.pos >= len(p.s) {
			return term{}, false
		}
		c := p.s[p.pos]
		if c == '"' {
			p.pos++
			break
		}
		if c == '\n' || c == '\r' {
			return term{}, false
		}
		if c != '\\' {
			out += p.s[p.pos : p.pos+1]
			p.pos++
			continue
		}
		if p.pos+1 >= len(p.s) {
			return term{}, false
		}
		switch p.s[p.pos+1] {
		case 't':
			out += "\t"
		case 'b':
			out += "\b"
		case 'n':
			out += "\n"
		case 'r':
			out += "\r"
		case 'f':
			out += "\f"
		case '"':
			out += "\""
		case '\'':
			out += "'"
		case '\\':
			out += "\\"
		default:
			r, ok := p.uchar()
			if !ok {
				return term{}, false
			}
			out += string(r)
			continue
		}
		p.pos += 2
	}
	t := term{kind: 'l', text: out, dt: xsdString}
	if p.at('@') {
		// [a-zA-Z]+ ('-' [a-zA-Z0-9]+)*
		i := p.pos + 1
		for i < len(p.s) && alpha(rune(p.s[i])) {
			i++
		}
		if i == p.pos+1 {
			return term{}, false
		}
		for i < len(p.s) && p.s[i] == '-' {
			j := i + 1
			for j < len(p.s) && nd.Or(alpha(rune(p.s[j])), digit(rune(p.s[j]))) {
				j++
			}
			if j == i+1 {
				break
			}
			i = j
		}
		t.dt, t.lang = langString, p.s[p.pos+1:i]
		p.pos = i
	} else if p.at('^') {
		p.pos++
		if !p.at('^') {
			return term{}, false
		}
		p.pos++
		d, ok := p.iri()
		if !ok {
			return term{}, false
		}
		t.dt = d.text
	}
	return t, true
}

// refLine: kind 't' triple, 'c' comment, 'e' error.
func refLine(line string) (kind byte, s, pr, o term) {
	if !utf8.ValidString(line) {
		return 'e', s, pr, o
	}
	p := &rp{s: line}
	p.ws()
	if p.at('#') {
		return 'c', s, pr, o
	}
	ok := false
	if p.at('<') {
		s, ok = p.iri()
	} else {
		s, ok = p.blank()
	}
	if !ok {
		return 'e', s, pr, o
	}
	p.ws()
	if pr, ok = p.iri(); !ok {
		return 'e', s, pr, o
	}
	p.ws()
	switch {
	case p.at('<'):
		o, ok = p.iri()
	case p.at('_'):
		o, ok = p.blank()
	default:
		o, ok = p.literal()
	}
	if !ok {
		return 'e', s, pr, o
	}
	p.ws()
	if !p.at('.') {
		return 'e', s, pr, o
	}
	p.pos++
	p.ws()
	if p.pos < len(p.s) && !p.at('#') {
		return 'e', s, pr, o
	}
	// a line holds no line break
	for i := p.pos; i < len(p.s); i++ {
		if p.s[i] == '\n' || p.s[i] == '\r' {
			return 'x', s, pr, o
		}
	}
	return 't', s, pr, o
}

func checkLine(line string) {
	t, c, err := nt.ParseLine(line)
	kind, s, p, o := refLine(line)
	nd.ObsBool("err", err != nil)
	nd.Assert(!(t != nil && c != nil), "one-result")
	switch kind {
	case 'e':
		nd.Assert(err != nil, "rejects")
		nd.Assert(t == nil && c == nil, "nothing-on-error")
		nd.Reach("rejected")
	case 'c':
		nd.Assert(err == nil && c != nil, "comment")
		nd.Reach("comment")
	case 't':
		nd.Assert(err == nil && t != nil, "accepts")
		if s.kind == 'i' {
			nd.Assert(t.Subject().IsIRI() && !t.Subject().IsBlankNode(), "subject-kind")
			nd.Assert(string(t.Subject().IRI()) == s.text, "subject-iri")
		} else {
			nd.Assert(!t.Subject().IsIRI() && t.Subject().IsBlankNode(), "subject-kind")
			nd.Assert(string(t.Subject().BlankNodeID()) == s.text, "subject-label")
		}
		nd.Assert(string(t.Predicate()) == p.text, "predicate")
		ob := t.Object()
		switch o.kind {
		case 'i':
			nd.Assert(ob.IsIRI() && !ob.IsBlankNode() && !ob.IsLiteral(), "object-kind")
			nd.Assert(string(ob.IRI()) == o.text, "object-iri")
		case 'b':
			nd.Assert(!ob.IsIRI() && ob.IsBlankNode() && !ob.IsLiteral(), "object-kind")
			nd.Assert(string(ob.BlankNodeID()) == o.text, "object-label")
		case 'l':
			nd.Assert(!ob.IsIRI() && !ob.IsBlankNode() && ob.IsLiteral(), "object-kind")
			l := ob.Literal()
			nd.Assert(l.LexicalForm() == o.text, "lexical-form")
			nd.Assert(string(l.Datatype()) == o.dt, "datatype")
			nd.Assert(l.LanguageTag() == o.lang, "language")
		}
		nd.Reach("accepted")
	}
}

// LineBytes: every line of at most n bytes (no panic, nothing accepted that is not a line).
func LineBytes() { checkLine(nd.Str(nd.Choose(nd.Param("n", 4) + 1))) }

// LineHoles: skeletons with a hole of any bytes.
func LineHoles() {
	pre := []string{"", "<h:a", "_:", "_:a", "<h:a>", "_:a ", "_:a <h:b", "_:a <h:b>", "_:a <h:b> <", "_:a <h:b> _:", "_:a <h:b> _:c", "_:a <h:b> \"", "_:a <h:b> \"c\"", "_:a <h:b> \"c\"@en", "_:a <h:b> \"c\"^^<", "_:a <h:b> _:c ."}
	post := []string{" <h:b> <h:c> .", "> <h:b> <h:c> .", " <h:b> <h:c> .", " <h:b> <h:c> .", " <h:b> <h:c> .", "<h:b> <h:c> .", "> <h:c> .", " <h:c> .", "> .", " .", ".", "\" .", " .", " .", "> .", ""}
	k := nd.Choose(len(pre))
	checkLine(pre[k] + nd.Str(nd.Choose(nd.Param("hole", 2)+1)) + post[k])
	nd.Reach("hole")
}

// LineSyntax: longer holes over the characters of the syntax.
func LineSyntax() {
	pre := []string{"_:a<h:b>", "<h:a><h:b>\"", "_:a<h:b>\"c\"", "_:a<h:b><", ""}
	post := []string{"", "\".", ".", ">.", "<h:b>_:c."}
	sets := []string{"<>\"_:a.#", "\\\"na@.^", "@^<>a-1.# ", "\\u>a<%", "_:a.<> "}
	k := nd.Choose(len(pre))
	checkLine(pre[k] + nd.StrIn(sets[k], nd.Choose(nd.Param("n", 4)+1)) + post[k])
	nd.Reach("syntax")
}

// LineEscapes: \u and \U with any hex digits, in literals, IRIs and datatypes.
func LineEscapes() {
	pre := []string{"_:a<h:b>\"", "_:a<h:", "_:a<h:b>\"\"^^<h:"}
	post := []string{"\".", ">_:c.", ">."}
	k := nd.Choose(3)
	esc := ""
	if nd.Choose(2) == 0 {
		h := nd.Str(4)
		for i := 0; i < 4; i++ {
			nd.Assume(hexd(h[i]))
		}
		esc = `\u` + h
	} else {
		z := nd.Param("zeros", 2)
		h := nd.Str(8 - z)
		for i := 0; i < len(h); i++ {
			nd.Assume(hexd(h[i]))
		}
		esc = `\U` + "00000000"[:z] + h
	}
	checkLine(pre[k] + esc + post[k])
	nd.Reach("escape")
}

// LineWide: one arbitrary character of up to four bytes in labels, IRIs and literals.
func LineWide() {
	pre := []string{"_:", "_:a", "<h:", "_:a<h:b>\""}
	post := []string{"<h:b>_:c.", "<h:b>_:c.", "><h:b>_:c.", "\"."}
	k := nd.Choose(4)
	checkLine(pre[k] + nd.Str(nd.Choose(3)+2) + post[k])
	nd.Reach("wide")
}

// Lines: several lines; comments give no triple, an error reports no triples.
func Lines() {
	n := nd.Choose(nd.Param("n", 3) + 1)
	opts := []string{"_:a <h:p> _:b .", "# x", "_:c<h:q>\"l\".", "bad", "  # y", "_:d <h:p> <h:o> . # z"}
	var lines []string
	want := 0
	bad := false
	for i := 0; i < n; i++ {
		k := nd.Choose(len(opts))
		lines = append(lines, opts[k])
		if k == 3 {
			bad = true
		}
		if k == 0 || k == 2 || k == 5 {
			want++
		}
	}
	ts, err := nt.ParseLines(lines)
	nd.Assert((err != nil) == bad, "error")
	if bad {
		nd.Assert(len(ts) == 0, "nothing-on-error")
		nd.Reach("bad")
		return
	}
	nd.Assert(len(ts) == want, "count")
	j := 0
	for _, l := range lines {
		t, _, _ := nt.ParseLine(l)
		if t != nil {
			nd.Assert(nt.TriplesEqual(t, ts[j]), "order")
			j++
		}
	}
	nd.Reach("good")
}

// ---- P11: equality ----

func anyLit(n int) nt.Literal {
	lex := anyLex(nd.Choose(n + 1))
	switch nd.Choose(3) {
	case 0:
		return nt.NewLiteral(lex, nt.XMLSchemaString, "")
	case 1:
		tag := nd.Str(2)
		nd.Assume(langTag(tag))
		return nt.NewLiteral(lex, nt.LangString, tag)
	}
	return nt.NewLiteral(lex, anyIRI(1), "")
}

func anySubject(n int) *nt.Subject {
	if nd.Choose(2) == 0 {
		return nt.NewSubjectIRI(anyIRI(nd.Choose(n + 1)))
	}
	return nt.NewSubjectBlankNodeID(anyLabel(nd.Choose(n) + 1))
}

func anyObject(n int) *nt.Object {
	switch nd.Choose(3) {
	case 0:
		return nt.NewObjectIRI(anyIRI(nd.Choose(n + 1)))
	case 1:
		return nt.NewObjectBlankNodeID(anyLabel(nd.Choose(n) + 1))
	}
	return nt.NewObjectLiteral(anyLit(n))
}

func subjKey(s *nt.Subject) term {
	if s.IsIRI() {
		return term{kind: 'i', text: string(s.IRI())}
	}
	return term{kind: 'b', text: string(s.BlankNodeID())}
}

func objKey(o *nt.Object) term {
	switch {
	case o.IsIRI():
		return term{kind: 'i', text: string(o.IRI())}
	case o.IsBlankNode():
		return term{kind: 'b', text: string(o.BlankNodeID())}
	}
	l := o.Literal()
	return term{'l', l.LexicalForm(), string(l.Datatype()), l.LanguageTag()}
}

func same(a, b term) bool {
	return nd.And(nd.And(a.kind == b.kind, a.text == b.text), nd.And(a.dt == b.dt, a.lang == b.lang))
}

func b1(b bool) int {
	if b {
		return 1
	}
	return 0
}

// EqSubjects: any two subjects.
func EqSubjects() {
	n := nd.Param("n", 2)
	a, b := anySubject(n), anySubject(n)
	for _, s := range []*nt.Subject{a, b} {
		nd.Assert(b1(s.IsIRI())+b1(s.IsBlankNode()) == 1, "one-kind")
		nd.Assert(nt.SubjectsEqual(s, s), "reflexive")
		o := nt.NewObjectFromSubject(s)
		nd.Assert(same(subjKey(s), objKey(o)), "object-from-subject")
		nd.Assert(s.String() == o.String(), "object-from-subject-text")
	}
	e := nt.SubjectsEqual(a, b)
	nd.Assert(nd.Iff(e, nt.SubjectsEqual(b, a)), "symmetric")
	nd.Assert(nd.Iff(e, same(subjKey(a), subjKey(b))), "content")
	nd.Assert(nd.Iff(e, a.String() == b.String()), "serialised")
	if e {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}

// EqObjects: any two objects.
func EqObjects() {
	n := nd.Param("n", 1)
	a, b := anyObject(n), anyObject(n)
	for _, o := range []*nt.Object{a, b} {
		nd.Assert(b1(o.IsIRI())+b1(o.IsBlankNode())+b1(o.IsLiteral()) == 1, "one-kind")
		nd.Assert(nt.ObjectsEqual(o, o), "reflexive")
	}
	e := nt.ObjectsEqual(a, b)
	nd.Assert(nd.Iff(e, nt.ObjectsEqual(b, a)), "symmetric")
	nd.Assert(nd.Iff(e, same(objKey(a), objKey(b))), "content")
	nd.Assert(nd.Iff(e, a.String() == b.String()), "serialised")
	if e {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}

// EqLiterals: three literals of any datatype with any language tag, also combinations that are no terms of RDF.
func EqLiterals() {
	mk := func() nt.Literal {
		dt := []nt.IRI{"", nt.XMLSchemaString, nt.LangString, nt.IRI(nd.StrIn("ab", 1))}[nd.Choose(4)]
		return nt.NewLiteral(nd.Str(nd.Choose(2)), dt, nd.Str(nd.Choose(2)))
	}
	a, b, c := mk(), mk(), mk()
	eq := func(x, y nt.Literal) bool {
		return nd.And(x.LexicalForm() == y.LexicalForm(), nd.And(x.Datatype() == y.Datatype(), x.LanguageTag() == y.LanguageTag()))
	}
	ab := nt.LiteralsEqual(a, b)
	nd.Assert(nd.Iff(ab, eq(a, b)), "content")
	nd.Assert(nd.Iff(ab, nt.LiteralsEqual(b, a)), "symmetric")
	nd.Assert(nt.LiteralsEqual(a, a), "reflexive")
	nd.Assert(nd.Implies(nd.And(ab, nt.LiteralsEqual(b, c)), nt.LiteralsEqual(a, c)), "transitive")
	nd.Assert(nd.Iff(ab, nt.ObjectsEqual(nt.NewObjectLiteral(a), nt.NewObjectLiteral(b))), "objects")
	if ab {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}

// EqTriples: two triples that differ in any subset of their parts; transitivity over three.
func EqTriples() {
	mk := func() *nt.Triple {
		var s *nt.Subject
		if nd.Choose(2) == 0 {
			s = nt.NewSubjectIRI(nt.IRI(nd.StrIn("ab", 1)))
		} else {
			s = nt.NewSubjectBlankNodeID(nt.BlankNodeID(nd.StrIn("ab", 1)))
		}
		var o *nt.Object
		switch nd.Choose(3) {
		case 0:
			o = nt.NewObjectIRI(nt.IRI(nd.StrIn("ab", 1)))
		case 1:
			o = nt.NewObjectBlankNodeID(nt.BlankNodeID(nd.StrIn("ab", 1)))
		case 2:
			o = nt.NewObjectLiteral(nt.NewLiteral(nd.StrIn("ab", 1), nt.IRI(nd.StrIn("ab", 1)), nd.StrIn("ab", 1)))
		}
		return nt.NewTriple(s, nt.IRI(nd.StrIn("ab", 1)), o)
	}
	a, b, c := mk(), mk(), mk()
	eq := func(x, y *nt.Triple) bool {
		return nd.And(same(subjKey(x.Subject()), subjKey(y.Subject())), nd.And(x.Predicate() == y.Predicate(), same(objKey(x.Object()), objKey(y.Object()))))
	}
	ab, bc, ac := nt.TriplesEqual(a, b), nt.TriplesEqual(b, c), nt.TriplesEqual(a, c)
	nd.Assert(nd.Iff(ab, eq(a, b)), "content")
	nd.Assert(nd.Iff(ab, nt.TriplesEqual(b, a)), "symmetric")
	nd.Assert(nt.TriplesEqual(a, a), "reflexive")
	nd.Assert(nd.Implies(nd.And(ab, bc), ac), "transitive")
	if ab {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}
