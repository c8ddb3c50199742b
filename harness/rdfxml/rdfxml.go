// Package rdfxml holds the harnesses for package rdf/rdfxml (P12, P13, P14).
//
// A document is built as an element tree, given to the parser as the token stream the XML decoder
// produces for it, and evaluated independently by the grammar of the RDF 1.1 XML Syntax (section 7.2).
package rdfxml

import (
	"encoding/xml"
	"io"
	"unicode/utf8"

	"github.com/google/xtoproto/rdf/iri"
	nt "github.com/google/xtoproto/rdf/ntriples"
	"github.com/google/xtoproto/rdf/rdfxml"
	"github.com/google/xtoproto/zz_verif/nd"
)

const (
	rdf        = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	xmlNS      = "http://www.w3.org/XML/1998/namespace"
	ex         = "http://e/v#"
	docBase    = "http://d/x/y"
	xsdString  = "http://www.w3.org/2001/XMLSchema#string"
	langString = rdf + "langString"
)

// ---- documents ----

type at struct{ ns, local, val string }

type el struct {
	ns, local string
	attrs     []at
	kids      []kid
}

// kid is an element, a text or (with comment set) a comment or a processing instruction.
type kid struct {
	e       *el
	text    string
	comment bool
	pi      bool
}

func (e *el) at(ns, local, val string) *el {
	e.attrs = append(e.attrs, at{ns, local, val})
	return e
}

func (e *el) add(ks ...*el) *el {
	for _, k := range ks {
		e.kids = append(e.kids, kid{e: k})
	}
	return e
}

func (e *el) txt(s string) *el {
	e.kids = append(e.kids, kid{text: s})
	return e
}

func (e *el) com(s string) *el {
	e.kids = append(e.kids, kid{text: s, comment: true})
	return e
}

func desc() *el          { return &el{ns: rdf, local: "Description"} }
func root(ks ...*el) *el { return (&el{ns: rdf, local: "RDF"}).add(ks...) }
func prop(l string) *el  { return &el{ns: ex, local: l} }
func about(s string) *el { return desc().at(rdf, "about", s) }

type reader struct {
	toks []xml.Token
	pos  int
}

func (r *reader) Token() (xml.Token, error) {
	if r.pos >= len(r.toks) {
		return nil, io.EOF
	}
	r.pos++
	return r.toks[r.pos-1], nil
}

func (r *reader) put(e *el) {
	name := xml.Name{Space: e.ns, Local: e.local}
	s := xml.StartElement{Name: name}
	for _, a := range e.attrs {
		s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Space: a.ns, Local: a.local}, Value: a.val})
	}
	r.toks = append(r.toks, s)
	for _, k := range e.kids {
		switch {
		case k.e != nil:
			r.put(k.e)
		case k.pi:
			r.toks = append(r.toks, xml.ProcInst{Target: "x", Inst: []byte(k.text)})
		case k.comment:
			r.toks = append(r.toks, xml.Comment(k.text))
		default:
			r.toks = append(r.toks, xml.CharData(k.text))
		}
	}
	r.toks = append(r.toks, xml.EndElement{Name: name})
}

// ---- the grammar ----

type node struct {
	kind           byte // 'i' IRI, 'x' named blank node, 'g' generated blank node, 'l' literal
	text, dt, lang string
	n              int
}

type triple struct {
	s node
	p string
	o node
}

type oracle struct {
	out []triple
	gen int
	ids []string
	bad bool
}

type env struct{ base, lang string }

func isXML(a at) bool {
	return a.ns == xmlNS || a.ns == "xmlns" || (a.ns == "" && hasXMLPrefix(a.local))
}

func hasXMLPrefix(s string) bool {
	return len(s) >= 3 && (s[0] == 'x' || s[0] == 'X') && (s[1] == 'm' || s[1] == 'M') && (s[2] == 'l' || s[2] == 'L')
}

func isRDF(ns, local, want string) bool { return ns == rdf && local == want }

func in(ns, local string, set []string) bool {
	if ns != rdf {
		return false
	}
	for _, s := range set {
		if local == s {
			return true
		}
	}
	return false
}

var (
	notNode = []string{"RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "li", "aboutEach", "aboutEachPrefix", "bagID"}
	notProp = []string{"RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "Description", "aboutEach", "aboutEachPrefix", "bagID"}
	notAttr = []string{"RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "Description", "li", "aboutEach", "aboutEachPrefix", "bagID"}
)

// attrName is the URI of an attribute, as namespace and local name (section 6.1.4).
func (o *oracle) attrName(a at) (string, string) {
	if a.ns == "" {
		switch a.local {
		case "ID", "about", "resource", "parseType", "type":
			return rdf, a.local
		}
		o.bad = true
	}
	return a.ns, a.local
}

func (o *oracle) env(e *el, v env) env {
	for _, a := range e.attrs {
		if a.ns == xmlNS && a.local == "lang" {
			v.lang = a.val
		}
	}
	for _, a := range e.attrs {
		if a.ns == xmlNS && a.local == "base" {
			v.base = noFragment(o.resolve(v, a.val))
		}
	}
	return v
}

func noFragment(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			return s[:i]
		}
	}
	return s
}

// resolve: references are resolved by package iri, whose resolution is property P06.
func (o *oracle) resolve(v env, s string) string {
	if s == "" {
		return v.base
	}
	r, err := iri.Parse(s)
	if err != nil {
		o.bad = true
		return ""
	}
	return string(iri.IRI(v.base).ResolveReference(r).NormalizePercentEncoding())
}

func ncStart(r rune) bool { return r == '_' || letter(r) }

func letter(r rune) bool {
	v := nd.Or(nd.And(r >= 'a', r <= 'z'), nd.And(r >= 'A', r <= 'Z'))
	for i := 0; i < len(letters); i += 2 {
		v = nd.Or(v, nd.And(r >= letters[i], r <= letters[i+1]))
	}
	return v
}

var letters = []rune{0xC0, 0xD6, 0xD8, 0xF6, 0xF8, 0x2FF, 0x370, 0x37D, 0x37F, 0x1FFF, 0x200C, 0x200D, 0x2070, 0x218F,
	0x2C00, 0x2FEF, 0x3001, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFFD, 0x10000, 0xEFFFF}

func ncChar(r rune) bool {
	v := nd.Or(nd.Or(r == '-', r == '.'), nd.Or(nd.And(r >= '0', r <= '9'), r == 0xB7))
	return nd.Or(v, nd.Or(nd.And(r >= 0x300, r <= 0x36F), nd.And(r >= 0x203F, r <= 0x2040)))
}

func ncName(s string) bool {
	if s == "" {
		return false
	}
	ok := true
	for i, r := range s {
		st := nd.Or(r == '_', letter(r))
		if i > 0 {
			st = nd.Or(st, ncChar(r))
		}
		ok = nd.And(ok, st)
	}
	return ok
}

func (o *oracle) id(v env, s string) node {
	if !ncName(s) {
		o.bad = true
		return node{kind: 'i'}
	}
	u := o.resolve(v, "#"+s)
	for _, x := range o.ids {
		if x == u {
			o.bad = true
		}
	}
	o.ids = append(o.ids, u)
	return node{kind: 'i', text: u}
}

func (o *oracle) named(s string) node {
	if !ncName(s) {
		o.bad = true
	}
	return node{kind: 'x', text: s}
}

func (o *oracle) fresh() node {
	o.gen++
	return node{kind: 'g', n: o.gen}
}

func (o *oracle) plain(v env, s string) node {
	if v.lang == "" {
		return node{kind: 'l', text: s, dt: xsdString}
	}
	return node{kind: 'l', text: s, dt: langString, lang: v.lang}
}

func (o *oracle) emit(s node, p string, ob node) { o.out = append(o.out, triple{s, p, ob}) }

func iriNode(s string) node { return node{kind: 'i', text: s} }

// propAttr emits the triple of a property attribute.
func (o *oracle) propAttr(v env, s node, ns, local, val string) {
	if in(ns, local, notAttr) {
		o.bad = true
		return
	}
	if isRDF(ns, local, "type") {
		o.emit(s, rdf+"type", iriNode(o.resolve(v, val)))
		return
	}
	o.emit(s, ns+local, o.plain(v, val))
}

func (o *oracle) nodeElem(e *el, v env) node {
	v = o.env(e, v)
	if in(e.ns, e.local, notNode) {
		o.bad = true
	}
	var s node
	have := 0
	for _, a := range e.attrs {
		if isXML(a) {
			continue
		}
		ns, local := o.attrName(a)
		switch {
		case isRDF(ns, local, "ID"):
			s = o.id(v, a.val)
			have++
		case isRDF(ns, local, "nodeID"):
			s = o.named(a.val)
			have++
		case isRDF(ns, local, "about"):
			s = iriNode(o.resolve(v, a.val))
			have++
		}
	}
	if have > 1 {
		o.bad = true
	}
	if have == 0 {
		s = o.fresh()
	}
	if !isRDF(e.ns, e.local, "Description") {
		o.emit(s, rdf+"type", iriNode(e.ns+e.local))
	}
	for _, a := range e.attrs {
		if isXML(a) {
			continue
		}
		ns, local := o.attrName(a)
		if isRDF(ns, local, "ID") || isRDF(ns, local, "nodeID") || isRDF(ns, local, "about") {
			continue
		}
		o.propAttr(v, s, ns, local, a.val)
	}
	o.props(e, v, s)
	return s
}

func blank(s string) bool {
	for i := 0; i < len(s); i++ {
		if !nd.Or(nd.Or(s[i] == ' ', s[i] == '\t'), nd.Or(s[i] == '\n', s[i] == '\r')) {
			return false
		}
	}
	return true
}

func (o *oracle) props(e *el, v env, s node) {
	li := 1
	for _, k := range e.kids {
		if k.e == nil {
			if !k.comment && !blank(k.text) {
				o.bad = true
			}
			continue
		}
		o.propElem(k.e, v, s, &li)
	}
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

func (o *oracle) propElem(e *el, v env, s node, li *int) {
	v = o.env(e, v)
	if in(e.ns, e.local, notProp) {
		o.bad = true
	}
	p := e.ns + e.local
	if isRDF(e.ns, e.local, "li") {
		p = rdf + "_" + itoa(*li)
		*li++
	}
	var id, resource, nodeID, datatype, parseType *at
	var rest []at
	for i, a := range e.attrs {
		if isXML(a) {
			continue
		}
		ns, local := o.attrName(a)
		q := &e.attrs[i]
		switch {
		case isRDF(ns, local, "ID"):
			id = q
		case isRDF(ns, local, "resource"):
			resource = q
		case isRDF(ns, local, "nodeID"):
			nodeID = q
		case isRDF(ns, local, "datatype"):
			datatype = q
		case isRDF(ns, local, "parseType"):
			parseType = q
		default:
			rest = append(rest, at{ns, local, a.val})
		}
	}
	// one adds the triple and its reification.
	one := func(ob node) {
		o.emit(s, p, ob)
		if id != nil {
			r := o.id(v, id.val)
			o.emit(r, rdf+"subject", s)
			o.emit(r, rdf+"predicate", iriNode(p))
			o.emit(r, rdf+"object", ob)
			o.emit(r, rdf+"type", iriNode(rdf+"Statement"))
		}
	}
	if parseType != nil {
		if resource != nil || nodeID != nil || datatype != nil || len(rest) > 0 {
			o.bad = true
		}
		switch parseType.val {
		case "Resource":
			n := o.fresh()
			one(n)
			o.props(e, v, n)
		case "Collection":
			var items []node
			for _, k := range e.kids {
				if k.e != nil {
					items = append(items, o.nodeElem(k.e, v))
				} else if !k.comment && !blank(k.text) {
					o.bad = true
				}
			}
			if len(items) == 0 {
				one(iriNode(rdf + "nil"))
				return
			}
			c := o.fresh()
			one(c)
			for i, it := range items {
				if i > 0 {
					d := o.fresh()
					o.emit(c, rdf+"rest", d)
					c = d
				}
				o.emit(c, rdf+"first", it)
			}
			o.emit(c, rdf+"rest", iriNode(rdf+"nil"))
		default:
			one(node{kind: 'l', text: xmlText(e), dt: rdf + "XMLLiteral"})
		}
		return
	}
	var child *el
	text := ""
	hasText, solid := false, false
	for _, k := range e.kids {
		if k.e != nil {
			if child != nil {
				o.bad = true
			}
			child = k.e
		} else if !k.comment {
			text += k.text
			hasText = true
			if !blank(k.text) {
				solid = true
			}
		}
	}
	if child != nil {
		if solid || resource != nil || nodeID != nil || datatype != nil || len(rest) > 0 {
			o.bad = true
		}
		one(o.nodeElem(child, v))
		return
	}
	if hasText && text != "" {
		if resource != nil || nodeID != nil || len(rest) > 0 {
			o.bad = true
		}
		if datatype != nil {
			one(node{kind: 'l', text: text, dt: o.resolve(v, datatype.val)})
		} else {
			one(o.plain(v, text))
		}
		return
	}
	if resource == nil && nodeID == nil && len(rest) == 0 {
		nd.Assume(datatype == nil) // what an empty element with a datatype denotes is left open by the standard
		one(o.plain(v, ""))
		return
	}
	if b1(resource != nil)+b1(nodeID != nil)+b1(datatype != nil) > 1 {
		o.bad = true
	}
	var r node
	switch {
	case resource != nil:
		r = iriNode(o.resolve(v, resource.val))
	case nodeID != nil:
		r = o.named(nodeID.val)
	default:
		r = o.fresh()
	}
	for _, a := range rest {
		o.propAttr(v, r, a.ns, a.local, a.val)
	}
	one(r)
}

// xmlText is the content of an element whose text needs no escape and whose elements have no namespace.
func xmlText(e *el) string {
	s := ""
	for _, k := range e.kids {
		switch {
		case k.e != nil:
			s += "<" + k.e.local + ">" + xmlText(k.e) + "</" + k.e.local + ">"
		case k.comment:
			s += "<!--" + k.text + "-->"
		default:
			s += k.text
		}
	}
	return s
}

func b1(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (o *oracle) doc(e *el, base string) {
	v := env{base: noFragment(base)}
	if !isRDF(e.ns, e.local, "RDF") {
		o.nodeElem(e, v)
		return
	}
	v = o.env(e, v)
	for _, a := range e.attrs {
		if !isXML(a) {
			o.bad = true
		}
	}
	for _, k := range e.kids {
		if k.e != nil {
			o.nodeElem(k.e, v)
		} else if !k.comment && !blank(k.text) {
			o.bad = true
		}
	}
}

// ---- comparison ----

type occ struct {
	n     node
	label nt.BlankNodeID
}

func isBlank(n node) bool { return n.kind == 'x' || n.kind == 'g' }

func sameBlank(a, b node) bool {
	if a.kind != b.kind {
		return false
	}
	if a.kind == 'g' {
		return a.n == b.n
	}
	return a.text == b.text
}

func subjMatches(n node, s *nt.Subject) bool {
	if isBlank(n) {
		return s.IsBlankNode()
	}
	return nd.And(s.IsIRI(), string(s.IRI()) == n.text)
}

func objMatches(n node, o *nt.Object) bool {
	if isBlank(n) {
		return o.IsBlankNode()
	}
	if n.kind == 'i' {
		return o.IsIRI() && string(o.IRI()) == n.text
	}
	if !o.IsLiteral() {
		return false
	}
	l := o.Literal()
	return nd.And(l.LexicalForm() == n.text, nd.And(string(l.Datatype()) == n.dt, l.LanguageTag() == n.lang))
}

// pairUp: got[perm[i]] matches want[i] and the blank nodes correspond one to one.
func pairUp(want []triple, got []*nt.Triple, perm []int) bool {
	ok := true
	var occs []occ
	for i, w := range want {
		g := got[perm[i]]
		ok = nd.And(ok, nd.And(string(g.Predicate()) == w.p, nd.And(subjMatches(w.s, g.Subject()), objMatches(w.o, g.Object()))))
		if !ok {
			return false
		}
		if isBlank(w.s) {
			occs = append(occs, occ{w.s, g.Subject().BlankNodeID()})
		}
		if isBlank(w.o) {
			occs = append(occs, occ{w.o, g.Object().BlankNodeID()})
		}
	}
	for i := range occs {
		for j := 0; j < i; j++ {
			ok = nd.And(ok, nd.Iff(sameBlank(occs[i].n, occs[j].n), occs[i].label == occs[j].label))
		}
	}
	return ok
}

// same: the two graphs are equal up to the names of blank nodes.
func same(want []triple, got []*nt.Triple) bool {
	if len(want) != len(got) {
		return false
	}
	perm := make([]int, len(want))
	used := make([]bool, len(want))
	for i := range perm {
		perm[i] = i
	}
	if pairUp(want, got, perm) {
		return true
	}
	tries := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(want) {
			return pairUp(want, got, perm)
		}
		for j := range got {
			if used[j] || tries > 2000 {
				continue
			}
			perm[i] = j
			tries++
			if !pairUp(want[:i+1], got, perm) {
				continue
			}
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func check(e *el) { checkBase(e, docBase) }

func checkBase(e *el, base string) {
	o := &oracle{}
	o.doc(e, base)
	r := &reader{toks: []xml.Token{xml.ProcInst{Target: "xml"}}}
	r.put(e)
	got, err := rdfxml.NewParser(r, &rdfxml.ParserOptions{BaseURL: nt.IRI(base)}).ReadAllTriples()
	nd.ObsBool("err", err != nil)
	for _, t := range got {
		nd.ObsStr("triple", t.String())
	}
	if o.bad {
		nd.Assert(err != nil, "rejects")
		nd.Reach("rejected")
		return
	}
	nd.Assert(err == nil, "accepts")
	// distinct literals in each document tell the triples apart, so this is a one-to-one matching
	nd.Assert(same(o.out, got), "triples")
	nd.Reach("accepted")
}

// ---- parts of documents ----

func maybeSpace(e *el) *el {
	if nd.Choose(2) == 0 {
		return e
	}
	return e.txt(" \n")
}

// nodeRef: a node element with every kind of subject.
func nodeRef(k int, e *el) *el {
	switch k {
	case 0:
		return e
	case 1:
		return e.at(rdf, "about", "rel")
	case 2:
		return e.at(rdf, "ID", "i")
	case 3:
		return e.at(rdf, "nodeID", "n")
	}
	return e.at("", "about", "#f")
}

// anyProp is a property element with the k-th content; tag makes its literals distinct.
func anyProp(k int, tag string) *el {
	p := prop("p")
	switch k {
	case 0:
		return p.txt(tag)
	case 1:
		return p.txt(tag).at(rdf, "datatype", "dt")
	case 2:
		return p
	case 3:
		return p.at(rdf, "resource", "r"+tag)
	case 4:
		return p.at(rdf, "nodeID", "n")
	case 5:
		return p.at(ex, "a", tag).at(rdf, "type", "T")
	case 6:
		return p.at(ex, "a", tag).at(rdf, "nodeID", "m")
	case 7:
		return p.txt("\n").add(about("in"+tag).at(ex, "a", tag)).txt(" ")
	case 8:
		return p.add(&el{ns: ex, local: "N"})
	case 9:
		return p.at(rdf, "parseType", "Resource").add(prop("q").txt(tag), prop("r"))
	case 10:
		return p.at(rdf, "parseType", "Resource")
	case 11:
		return p.at(rdf, "parseType", "Collection")
	case 12:
		return p.at(rdf, "parseType", "Collection").add(desc().at(ex, "a", tag), about("c"+tag))
	case 13:
		return p.at(rdf, "parseType", "Literal").txt(tag).add((&el{local: "b"}).txt("x"))
	case 14:
		return p.at(rdf, "parseType", "other").txt(tag)
	case 15:
		return p.at("", "resource", "u"+tag)
	}
	return p.com("c").txt(tag).com("d").txt(tag)
}

const kinds = 17

// ---- P13 ----

// Nodes: one node element with every kind of name, subject, property attribute and context.
func Nodes() {
	e := desc()
	switch nd.Choose(4) {
	case 1:
		e = &el{ns: ex, local: "N"}
	case 2:
		e = &el{ns: rdf, local: "Bag"}
	case 3:
		e = &el{ns: ex, local: nd.StrIn("abNx", 3)}
	}
	e.at("xmlns", "e", ex)
	nodeRef(nd.Choose(5), e)
	switch nd.Choose(7) {
	case 1:
		e.at(ex, "a", nd.Str(2))
	case 2:
		e.at(rdf, "type", "T"+nd.StrIn("ab/", 2))
	case 3:
		e.at(rdf, "_1", "x").at(ex, "b", "y")
	case 4:
		e.at("", "type", "T")
	case 5:
		e.at(ex, "xmlThing", "z").at(ex, "b", "y")
	case 6:
		e.at("", "xmlThing", "z")
	}
	if nd.Choose(2) == 1 {
		e.at(xmlNS, "lang", "en")
	}
	if nd.Choose(2) == 1 {
		e.add(prop("p").txt(nd.Str(1)))
	}
	if nd.Choose(2) == 1 {
		check(e)
	} else {
		check(root(e))
	}
}

// Properties: two property elements with every pair of contents, names and identifiers.
func Properties() {
	e := about("http://s/")
	n := nd.Param("props", 2)
	for i := 0; i < n; i++ {
		p := anyProp(nd.Choose(kinds), "t"+itoa(i))
		switch nd.Choose(3) {
		case 1:
			p.ns, p.local = rdf, "li"
		case 2:
			p.at(rdf, "ID", "id"+itoa(i))
		}
		e.add(p)
	}
	check(root(e))
}

// Reified: one property element of every content, numbered, named, both or neither, in and out of the
// scope of a language, with a numbered sibling.
func Reified() {
	n := about("http://s/")
	p := anyProp(nd.Choose(kinds), "t")
	k := nd.Choose(4)
	if k >= 2 {
		p.ns, p.local = rdf, "li"
	}
	if k%2 == 1 {
		if nd.Choose(2) == 0 {
			p.at(rdf, "ID", "i")
		} else {
			p.attrs = append([]at{{rdf, "ID", "i"}}, p.attrs...)
		}
	}
	switch nd.Choose(3) {
	case 1:
		n.at(xmlNS, "lang", nd.StrIn("abc", 2))
	case 2:
		p.at(xmlNS, "lang", "en")
	}
	check(root(n.add(p, (&el{ns: rdf, local: "li"}).txt("z"))))
}

// Members: collections whose members are equal, different, named or anonymous.
func Members() {
	p := prop("p").at(rdf, "parseType", "Collection")
	n := nd.Choose(nd.Param("items", 3) + 1)
	for i := 0; i < n; i++ {
		m := desc()
		switch nd.Choose(5) {
		case 1:
			m.at(rdf, "about", nd.StrIn("ab", 1))
		case 2:
			m.at(rdf, "nodeID", nd.StrIn("ab", 1))
		case 3:
			m = &el{ns: ex, local: "N"}
		case 4:
			m.at(rdf, "ID", "i"+itoa(i)).at(ex, "a", "w")
		}
		p.add(m)
	}
	if nd.Choose(2) == 1 {
		p.at(rdf, "ID", "x")
	}
	check(root(about("http://s/").add(p, prop("after").txt("z"))))
}

// Bases: any base of the document, any xml:base, any reference.
func Bases() {
	n := nd.Param("n", 3)
	base := "http://d"
	if nd.Choose(2) == 1 {
		base += "/" + nd.StrIn("a/?.", nd.Choose(n+1))
		if nd.Bool() {
			base += "#" + nd.StrIn("a/?", 1)
		}
	}
	e := about("http://s/")
	in := prop("p")
	switch nd.Choose(5) {
	case 0:
		in.at(rdf, "resource", "")
	case 1:
		in.at(rdf, "resource", "r")
	case 2:
		in.at(rdf, "ID", "i").txt("x")
	case 3:
		in.at(rdf, "resource", "?q")
	case 4:
		in.at(rdf, "resource", "../r")
	}
	at := nd.Choose(4)
	if at > 0 {
		xb := ""
		switch nd.Choose(3) {
		case 0:
			xb = "http://b/" + nd.StrIn("a/?.", n)
		case 1:
			xb = nd.StrIn("a/?.", n)
		case 2:
			xb = "http://b/" + nd.StrIn("a?", 1) + "#" + nd.StrIn("a?", 2)
		}
		if at%2 == 1 {
			e.at(xmlNS, "base", xb)
		} else {
			in.at(xmlNS, "base", xb)
		}
		if at == 3 {
			in.at(xmlNS, "base", "k?l")
		}
	}
	checkBase(root(e.add(in)), base)
}

// Misc: a comment or a processing instruction in every place of a document of every content.
func Misc() {
	p := anyProp(nd.Choose(kinds), "text")
	for _, a := range p.attrs {
		nd.Assume(!(a.local == "parseType" && (a.val == "Literal" || a.val == "other"))) // part of the value there
	}
	r := root(about("http://s/").add(p).txt(" "))
	var all []*el
	var walk func(e *el)
	walk = func(e *el) {
		all = append(all, e)
		for _, k := range e.kids {
			if k.e != nil {
				walk(k.e)
			}
		}
	}
	walk(r)
	for i := nd.Param("n", 1); i > 0; i-- {
		e := all[nd.Choose(len(all))]
		m := kid{text: "c", comment: true, pi: nd.Choose(2) == 1}
		at := nd.Choose(2*len(e.kids) + 1)
		if at%2 == 0 {
			e.kids = append(e.kids[:at/2:at/2], append([]kid{m}, e.kids[at/2:]...)...)
			continue
		}
		k := e.kids[at/2] // inside a text
		nd.Assume(k.e == nil && !k.comment && len(k.text) > 1)
		a, b := kid{text: k.text[:1]}, kid{text: k.text[1:]}
		e.kids = append(e.kids[:at/2:at/2], append([]kid{a, m, b}, e.kids[at/2+1:]...)...)
	}
	check(r)
}

// Nesting: property elements inside property elements, up to depth levels.
func Nesting() {
	var build func(d int) *el
	build = func(d int) *el {
		p := prop("p" + itoa(d))
		if d == 0 {
			return p.txt("deep")
		}
		switch nd.Choose(5) {
		case 0:
			p.add(desc().add(build(d - 1)))
		case 1:
			p.add(nodeRef(1, &el{ns: ex, local: "N"}).add(build(d-1), prop("after").txt("x")))
		case 2:
			p.at(rdf, "parseType", "Resource").add(build(d-1), prop("after").txt("y"))
		case 3:
			p.at(rdf, "parseType", "Collection").add(desc().add(build(d-1)), about("c"))
		case 4:
			p.at(rdf, "ID", "r"+itoa(d)).add(desc().add(build(d - 1)))
		}
		return p
	}
	d := nd.Param("depth", 3)
	check(root(about("http://s/").add(build(d), prop("last").txt("z"))))
}

// Containers: rdf:li is numbered per parent element.
func Containers() {
	e := &el{ns: rdf, local: "Seq"}
	var fill func(p *el, d, n int)
	fill = func(p *el, d, n int) {
		for i := 0; i < n; i++ {
			tag := "t" + itoa(d) + itoa(i)
			k := nd.Choose(4)
			li := &el{ns: rdf, local: "li"}
			switch k {
			case 0:
				p.add(li.txt(tag))
			case 1:
				p.add(prop("p").txt(tag))
			case 2:
				p.add((&el{ns: rdf, local: "_1"}).txt(tag))
			case 3:
				if d == 0 {
					p.add(li.txt(tag))
					break
				}
				if nd.Choose(2) == 0 {
					li.at(rdf, "parseType", "Resource")
					fill(li, d-1, 2)
				} else {
					b := &el{ns: rdf, local: "Bag"}
					fill(b, d-1, 2)
					li.add(b)
				}
				p.add(li)
			}
		}
	}
	fill(e, 1, nd.Param("items", 3))
	check(root(e))
}

// Inherit: languages and bases set, unset or absent at three levels, with a sibling after each.
func Inherit() {
	scope := func(e *el, tag string) *el {
		switch nd.Choose(4) {
		case 1:
			e.at(xmlNS, "lang", nd.StrIn("abc", 2))
		case 2:
			e.at(xmlNS, "lang", "")
		case 3:
			switch nd.Choose(3) {
			case 0:
				e.at(xmlNS, "base", "http://b/"+tag+"/z#frag")
			case 1:
				e.at(xmlNS, "base", "sub/"+tag)
			case 2:
				e.at(xmlNS, "base", "")
			}
		}
		return e
	}
	lit := func(l string) []*el {
		return []*el{prop(l).txt("x"), prop(l+"r").at(rdf, "resource", "v/"+l), prop(l+"a").at(ex, "a", "w")}
	}
	in := scope(desc(), "n2").add(lit("in")...)
	p := scope(prop("p"), "p").add(in)
	n := scope(about("s"), "n1").add(p)
	n.add(lit("after")...)
	r := scope(root(n, about("t").add(lit("sib")...)), "r")
	check(r)
}

// Values: attribute values and text with any characters.
func Values() {
	n := nd.Choose(nd.Param("n", 3) + 1)
	s := nd.Str(n)
	e := about("http://s/")
	switch nd.Choose(5) {
	case 0:
		e.add(prop("p").txt(s))
	case 1:
		e.add(prop("p").txt(s).at(rdf, "datatype", "http://t/"))
	case 2:
		e.add(prop("p").at(ex, "a", s))
	case 3:
		e.at(ex, "a", s)
	case 4:
		e.add(prop("p").txt(s[:n/2]).com("c").txt(s[n/2:]))
	}
	check(root(e))
}

// References: IRI references over the characters of IRIs, in every attribute that holds one.
func References() {
	s := nd.StrIn("a/.#:?%", nd.Choose(nd.Param("n", 3)+1))
	e := about("http://s/")
	switch nd.Choose(6) {
	case 0:
		e = about(s)
	case 1:
		e.add(prop("p").at(rdf, "resource", s))
	case 2:
		e.at(rdf, "type", s)
	case 3:
		e.add(prop("p").at(rdf, "type", s))
	case 4:
		e.add(prop("p").txt("x").at(rdf, "datatype", s))
	case 5:
		e.at(xmlNS, "base", s).add(prop("p").at(rdf, "resource", "r"))
	}
	check(root(e))
}

// ---- P12 ----

// Blanks: explicit names against generated ones, in every order of kinds.
func Blanks() {
	e := root()
	name := func() string {
		switch nd.Choose(3) {
		case 0:
			return "gen-" + nd.StrIn("0123456789", 1)
		case 1:
			s := nd.StrIn("abg-._0123456789", 3)
			nd.Assume(ncName(s))
			return s
		}
		return "gen-" + nd.StrIn("123", 1) + "-" + nd.StrIn("cf", 1) + "ons-0"
	}
	n := nd.Param("nodes", 3)
	for i := 0; i < n; i++ {
		t := "t" + itoa(i)
		switch nd.Choose(7) {
		case 0:
			e.add(desc().at(ex, "a", t))
		case 1:
			e.add(desc().at(rdf, "nodeID", name()).at(ex, "a", t))
		case 2:
			e.add(about("s").add(prop("p").at(rdf, "nodeID", name()).at(ex, "a", t)))
		case 3:
			e.add(about("s").add(prop("p").at(ex, "a", t)))
		case 4:
			e.add(about("s").add(prop("p").at(rdf, "parseType", "Resource").add(prop("a").txt(t))))
		case 5:
			e.add(about("s").add(prop("p").at(rdf, "parseType", "Collection").add(desc().at(ex, "a", t))))
		case 6:
			e.add(about("s").add(prop("p").add((&el{ns: ex, local: "N"}).at(ex, "a", t))))
		}
	}
	check(e)
}

// BlankNames: one explicit name of any characters beside anonymous nodes of every kind.
func BlankNames() {
	n := nd.Param("n", 5)
	s := nd.Str(n)
	for i := 0; i < n; i++ {
		nd.Assume(nd.And(s[i] >= 0x20, s[i] < 0x7F))
	}
	nd.Assume(ncName(s))
	named := desc().at(rdf, "nodeID", s).at(ex, "a", "named")
	anon := []*el{desc().at(ex, "a", "1"), about("s").add(prop("p").at(rdf, "parseType", "Collection").add(desc().at(ex, "a", "2"), desc()))}
	if nd.Choose(2) == 0 {
		check(root(named, anon[0], anon[1]))
	} else {
		check(root(anon[0], anon[1], named))
	}
}

// BlankCollections: lists of 0..n items with named and anonymous members, twice in a document.
func BlankCollections() {
	e := root()
	for j := 0; j < 2; j++ {
		p := prop("p").at(rdf, "parseType", "Collection")
		n := nd.Choose(nd.Param("items", 3) + 1)
		for i := 0; i < n; i++ {
			t := "t" + itoa(j) + itoa(i)
			if nd.Choose(2) == 0 {
				p.add(desc().at(ex, "a", t))
			} else {
				p.add(desc().at(rdf, "nodeID", "gen-"+nd.StrIn("123456789", 1)).at(ex, "a", t))
			}
		}
		e.add(about("s" + itoa(j)).add(p))
	}
	check(e)
}

// ---- P14 ----

var terms = []string{"RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "li", "Description", "aboutEach", "aboutEachPrefix", "bagID",
	"type", "Seq", "Bag", "Alt", "Statement", "Property", "List", "nil", "first", "rest", "subject", "predicate", "object", "value", "_1", "XMLLiteral"}

// Names: RDF terms and any short names in every place.
func Names() {
	local := ""
	if nd.Choose(2) == 0 {
		local = terms[nd.Choose(len(terms))]
	} else {
		local = nd.StrIn("lIiDRFax", nd.Choose(nd.Param("n", 3))+1)
	}
	ns := rdf
	switch nd.Choose(3) {
	case 1:
		ns = ex
	case 2:
		ns = ""
	}
	place := nd.Choose(5)
	nd.Assume(!(ns == "" && place < 2)) // elements without a namespace are out of bounds
	nd.Assume(!hasXMLPrefix(local))
	val := "v"
	switch place {
	case 0:
		check(root(&el{ns: ns, local: local}))
	case 1:
		check(root(about("s").add((&el{ns: ns, local: local}).txt("x"))))
	case 2:
		check(root(desc().at(ns, local, val)))
	case 3:
		check(root(about("s").add(prop("p").at(ns, local, val))))
	case 4:
		check(root(about("s").add(prop("p").at(ns, local, val).txt("x"))))
	}
	nd.Reach("named")
}

// Conflicts: any subset of the attributes on a property element of every content.
func Conflicts() {
	p := prop("p")
	if nd.Choose(2) == 1 {
		p.at(rdf, "ID", "i")
	}
	if nd.Choose(2) == 1 {
		p.at(rdf, "resource", "r")
	}
	if nd.Choose(2) == 1 {
		p.at(rdf, "nodeID", "n")
	}
	if nd.Choose(2) == 1 {
		p.at(rdf, "datatype", "d")
	}
	if nd.Choose(2) == 1 {
		p.at(ex, "a", "w")
	}
	switch nd.Choose(4) {
	case 1:
		p.at(rdf, "parseType", "Resource")
	case 2:
		p.at(rdf, "parseType", "Collection")
	case 3:
		p.at(rdf, "parseType", "Literal")
	}
	content := nd.Choose(4)
	nd.Assume(content < 2 || p.attrs == nil || p.attrs[len(p.attrs)-1].val != "Literal") // see xmlText
	switch content {
	case 1:
		p.txt("x")
	case 2:
		p.add(about("in"))
	case 3:
		p.txt(" ").add(prop("q").txt("y"))
	}
	check(root(about("s").add(p)))
}

// NodeConflicts: any subset of the attributes on a node element.
func NodeConflicts() {
	e := desc()
	for _, l := range []string{"ID", "about", "nodeID", "resource", "parseType", "type"} {
		if nd.Choose(2) == 1 {
			e.at(rdf, l, "v")
		}
	}
	if nd.Choose(2) == 1 {
		check(root(e))
	} else {
		check(root(about("s").add(prop("p").add(e))))
	}
}

// Identifiers: any text as rdf:ID or rdf:nodeID, on nodes and properties of every content.
func Identifiers() {
	s := nd.Str(nd.Choose(nd.Param("n", 3) + 1))
	nd.Assume(utf8.ValidString(s)) // as the XML decoder checks
	switch nd.Choose(8) {
	case 0:
		check(root(desc().at(rdf, "ID", s)))
	case 1:
		check(root(desc().at(rdf, "nodeID", s)))
	case 2:
		check(root(about("s").add(prop("p").at(rdf, "nodeID", s))))
	case 3:
		check(root(about("s").add(prop("p").at(rdf, "ID", s))))
	case 4:
		check(root(about("s").add(prop("p").at(rdf, "ID", s).txt("x"))))
	case 5:
		check(root(about("s").add(prop("p").at(rdf, "ID", s).add(desc()))))
	case 6:
		check(root(about("s").add(prop("p").at(rdf, "ID", s).at(rdf, "parseType", "Resource"))))
	case 7:
		check(root(about("s").add(prop("p").at(rdf, "ID", s).at(rdf, "parseType", "Collection"))))
	}
}

// Duplicates: two identifiers, equal or not, under bases equal or not, on nodes or properties.
func Duplicates() {
	bases := []string{"", "http://b/", "http://b/#f", "http://d/x/y"}
	mk := func(i int) *el {
		id := nd.StrIn("ab", 1)
		var e *el
		switch nd.Choose(4) {
		case 0:
			e = desc().at(rdf, "ID", id)
		case 1:
			e = about("s" + itoa(i)).add(prop("p").at(rdf, "ID", id).txt("x" + itoa(i)))
		case 2:
			e = about("s" + itoa(i)).add(prop("p").at(rdf, "ID", id).at(rdf, "parseType", "Collection"))
		case 3:
			e = about("s" + itoa(i)).add(prop("p").at(rdf, "ID", id).at(rdf, "resource", "r"))
		}
		if b := nd.Choose(len(bases)); b > 0 {
			e.at(xmlNS, "base", bases[b])
		}
		return e
	}
	e := root(mk(0), mk(1))
	if nd.Choose(2) == 0 {
		check(e)
	} else {
		checkBase(e, "http://b/q")
	}
}

// Stray: text where the grammar has none, and attributes on rdf:RDF.
func Stray() {
	s := nd.StrIn(" \nx", nd.Choose(3))
	place := nd.Choose(8)
	r := root()
	n := about("s")
	p := prop("p")
	in := about("in")
	switch place {
	case 0:
		r.txt(s)
	case 1:
		n.txt(s)
	case 2:
		p.txt(s)
	case 6:
		p.at(rdf, "parseType", "Collection").txt(s)
	case 7:
		p.at(rdf, "parseType", "Resource").txt(s)
		in = prop("q")
	}
	p.add(in)
	if place == 3 {
		p.txt(s)
	}
	if nd.Choose(2) == 1 && place != 6 {
		p.add(about("second"))
	}
	n.add(p)
	if place == 4 {
		n.txt(s)
	}
	r.add(n)
	if place == 5 {
		r.txt(s)
	}
	switch nd.Choose(4) {
	case 1:
		r.at(rdf, "about", "x")
	case 2:
		r.at(ex, "a", "x")
	case 3:
		r.at("xmlns", "e", ex)
	}
	check(r)
}

// NoBase: documents read without a base IRI.
func NoBase() {
	e := desc()
	switch nd.Choose(3) {
	case 0:
		e.at(rdf, "about", "http://s/")
	case 1:
		e.at(rdf, "nodeID", "n")
	}
	e.add(anyProp(nd.Choose(3), "t"))
	nd.Assume(len(e.kids[0].e.attrs) == 0)
	checkBase(root(e), "")
}

// nested gives a node with two properties that hold nodes, each of the five elements with its base or none.
func nested(name func(e *el) *el) *el {
	bases := []string{"", "http://b/", "http://d/x/y"}
	base := func(e *el) *el {
		if b := nd.Choose(len(bases)); b > 0 {
			e.at(xmlNS, "base", bases[b])
		}
		return e
	}
	out := base(name(desc()))
	for i := 0; i < 2; i++ {
		out.add(base(prop("p" + itoa(i))).add(base(name(desc()))))
	}
	return root(out, name(desc()))
}

// NestedIDs: identifiers of nodes within nodes whose bases differ.
func NestedIDs() {
	check(nested(func(e *el) *el { return e.at(rdf, "ID", nd.StrIn("ab", 1)) }))
}

// BlankBases: anonymous nodes within nodes whose bases differ.
func BlankBases() {
	named := nd.Choose(5)
	i := 0
	check(nested(func(e *el) *el {
		if i++; i == named {
			e.at(rdf, "about", "")
		}
		return e
	}))
}
