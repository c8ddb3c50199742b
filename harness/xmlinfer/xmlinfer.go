// Package xmlinfer checks the schemas inferred from XML samples (P28).
package xmlinfer

import (
	"encoding/xml"
	"errors"
	"io"
	"strings"

	"github.com/google/xtoproto/xmlinfer"
	"github.com/google/xtoproto/zz_verif/nd"
)

// reader gives the tokens, and then the error.
type reader struct {
	toks []xml.Token
	err  error
	with bool // the error comes with the last token
	nils bool // every token comes after one that is nil
	n    int
}

func (r *reader) Token() (xml.Token, error) {
	if r.nils {
		r.n++
		if r.n%2 == 1 {
			return nil, nil
		}
	}
	if len(r.toks) == 0 {
		return nil, r.err
	}
	t := r.toks[0]
	r.toks = r.toks[1:]
	if len(r.toks) == 0 && r.with {
		return t, r.err
	}
	return t, nil
}

// field and message are what is read from the schema.
type field struct {
	name, typ string
	repeated  bool
}

type message struct {
	name   string
	fields []field
}

type schema []*message

func (s schema) message(name string) *message {
	for _, m := range s {
		if m.name == name {
			return m
		}
	}
	return nil
}

func letter(c byte) bool { return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

// identifier tells whether the text is a name in a schema.
func identifier(s string) bool {
	if len(s) == 0 || !letter(s[0]) {
		return false
	}
	for i := 1; i < len(s); i++ {
		if !letter(s[i]) && !('0' <= s[i] && s[i] <= '9') {
			return false
		}
	}
	return true
}

// parse reads the text of a schema, which must be well-formed.
func parse(text string) schema {
	var s schema
	var m *message
	first := true
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimLeft(l, " ")
		switch {
		case l == "" || strings.HasPrefix(l, "//"):
			continue
		case first:
			nd.Assert(l == "syntax = \"proto3\";", "proto3")
			first = false
		case m == nil:
			nd.Assert(strings.HasPrefix(l, "message ") && strings.HasSuffix(l, " {"), "message-header")
			m = &message{name: l[len("message ") : len(l)-len(" {")]}
			nd.Assert(identifier(m.name), "message-name-valid")
			nd.Assert(s.message(m.name) == nil, "message-names-differ")
			s = append(s, m)
		case l == "}":
			m = nil
		default:
			w := strings.Split(l, " ")
			f := field{}
			if w[0] == "repeated" {
				f.repeated = true
				w = w[1:]
			}
			nd.Assert(len(w) == 4 && w[2] == "=" && strings.HasSuffix(w[3], ";"), "field-line")
			f.typ, f.name = w[0], w[1]
			nd.Assert(identifier(f.name), "field-name-valid")
			for _, g := range m.fields {
				nd.Assert(g.name != f.name, "field-names-differ")
			}
			m.fields = append(m.fields, f)
		}
	}
	nd.Assert(m == nil && !first, "schema-complete")
	for _, m := range s {
		for _, f := range m.fields {
			nd.Assert(scalar(f.typ) || s.message(f.typ) != nil, "type-declared")
		}
	}
	return s
}

func scalar(t string) bool { return t == "int64" || t == "double" || t == "string" }

// node is what the samples have at one path.
type node struct {
	name  string
	attrs []*values
	kids  []*node
	texts []string
	max   int // occurrences in one parent
}

type values struct {
	name string
	vals []string
}

func (n *node) attr(name, v string) {
	for _, a := range n.attrs {
		if a.name == name {
			a.vals = append(a.vals, v)
			return
		}
	}
	n.attrs = append(n.attrs, &values{name, []string{v}})
}

func (n *node) kid(name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	k := &node{name: name}
	n.kids = append(n.kids, k)
	return k
}

func (n *node) leaf() bool { return len(n.attrs) == 0 && len(n.kids) == 0 }

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// integer and number tell whether a short text is one in decimal.
func integer(s string) bool {
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		s = s[1:]
	}
	return s != "" && digits(s)
}

func number(s string) bool {
	signed := len(s) > 0 && (s[0] == '+' || s[0] == '-')
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		s = s[1:]
	}
	l := strings.ToLower(s)
	if l == "inf" || l == "nan" || l == "infinity" {
		return l != "nan" || !signed
	}
	n, i := 0, 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
		n++
	}
	if i < len(s) && s[i] == '.' {
		i++
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
			n++
		}
	}
	if n == 0 {
		return false
	}
	if i == len(s) {
		return true
	}
	return (s[i] == 'e' || s[i] == 'E') && integer(s[i+1:])
}

// typeOf is the narrowest type of the values.
func typeOf(vals []string) string {
	t := "int64"
	for _, v := range vals {
		if !number(v) {
			return "string"
		}
		if !integer(v) {
			t = "double"
		}
	}
	return t
}

// named tells whether a name is the one given, or that with a number.
func named(got, want string) bool {
	return strings.HasPrefix(got, want) && digits(got[len(want):])
}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// describes tells whether the message describes exactly what the node has.
func describes(s schema, m *message, n *node, met map[string]bool) bool {
	if !named(m.name, title(n.name)) || len(m.fields) != len(n.attrs)+len(n.kids) {
		return false
	}
	met[m.name] = true
	used := make([]bool, len(m.fields))
	var match func(i int) bool
	match = func(i int) bool {
		if i == len(m.fields) {
			return true
		}
		for j, f := range m.fields {
			if used[j] {
				continue
			}
			ok := false
			if i < len(n.attrs) {
				a := n.attrs[i]
				ok = named(f.name, a.name) && !f.repeated && f.typ == typeOf(a.vals)
			} else {
				k := n.kids[i-len(n.attrs)]
				ok = named(f.name, k.name) && f.repeated == (k.max > 1)
				if ok && k.leaf() {
					ok = f.typ == typeOf(k.texts)
				} else if ok {
					c := s.message(f.typ)
					ok = c != nil && describes(s, c, k, met)
				}
			}
			if !ok {
				continue
			}
			used[j] = true
			if match(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return match(0)
}

// gen makes the tokens of documents and the nodes they have.
type gen struct {
	toks []xml.Token
	left int // elements yet to come
}

func nm(s string) xml.Name { return xml.Name{Local: s} }

func (g *gen) elem(parent *node, counts map[string]int, names []string, full bool) *node {
	g.left--
	name := names[nd.Choose(len(names))]
	n := parent.kid(name)
	counts[name]++
	st := xml.StartElement{Name: nm(name)}
	switch nd.Choose(nd.Param("attrs", 3)) {
	case 1:
		st.Attr = append(st.Attr, xml.Attr{Name: nm("b"), Value: "1"})
		n.attr("b", "1")
	case 2:
		st.Attr = append(st.Attr, xml.Attr{Name: nm("x"), Value: "y"})
		n.attr("x", "y")
	}
	g.toks = append(g.toks, st)
	text := ""
	if k := nd.Choose(nd.Param("texts", 3)); k > 0 {
		text = []string{"", "2", ".5"}[k]
		g.toks = append(g.toks, xml.CharData(text))
	}
	c := map[string]int{}
	for g.left > 0 && nd.Choose(2) == 1 {
		g.elem(n, c, names, full)
	}
	for _, k := range n.kids {
		if c[k.name] > k.max {
			k.max = c[k.name]
		}
	}
	if full && nd.Choose(2) == 1 {
		g.toks = append(g.toks, xml.Comment("c"), xml.CharData("7"), xml.ProcInst{Target: "p"})
		text += "7"
	}
	n.texts = append(n.texts, text)
	g.toks = append(g.toks, xml.EndElement{Name: nm(name)})
	return n
}

// check compares the schema with what the samples have.
func check(text string, top *node) schema {
	s := parse(text)
	met := map[string]bool{}
	for _, r := range top.kids {
		if r.leaf() {
			continue
		}
		found := false
		for _, m := range s {
			if named(m.name, title(r.name)) && describes(s, m, r, met) {
				found = true
			}
		}
		nd.Assert(found, "root-described")
	}
	for _, m := range s {
		nd.Assert(met[m.name], "message-describes-samples")
	}
	return s
}

func infer(r xml.TokenReader) string {
	res, err := xmlinfer.Infer(r)
	nd.Assert(err == nil, "inferred")
	text, err := res.ProtoFile()
	nd.Assert(err == nil, "printed")
	return text
}

// Shapes infers schemas from documents of every shape.
func Shapes() {
	g := &gen{left: nd.Param("elems", 3)}
	top := &node{}
	names := []string{"a", "b"}
	for g.left > 0 {
		g.elem(top, map[string]int{}, names, false)
	}
	r := &reader{toks: g.toks, err: io.EOF}
	if nd.Param("how", 1) == 1 {
		switch nd.Choose(3) {
		case 1:
			r.with = true
		case 2:
			r.nils = true
		}
	}
	s := check(infer(r), top)
	if len(s) > 1 {
		nd.Reach("two-messages")
	}
	for _, m := range s {
		for _, f := range m.fields {
			if f.repeated {
				nd.Reach("repeated")
			}
		}
	}
}

// Texts has text, comments and instructions between the elements.
func Texts() {
	g := &gen{left: nd.Param("elems", 2)}
	top := &node{}
	for g.left > 0 {
		g.elem(top, map[string]int{}, []string{"a", "b"}, true)
	}
	check(infer(&reader{toks: g.toks, err: io.EOF}), top)
	nd.Reach("done")
}

// Trees has more elements, without attributes and text.
func Trees() { Shapes() }

// Many has many values of an attribute and of a text, in one or two parents.
func Many() {
	vals := []string{"1", "2", ".5", "x", ""}
	top := &node{}
	n := top.kid("a")
	k := nd.Param("n", 4)
	cut := nd.Choose(k + 1)
	text := nd.Choose(2) == 1
	n.kid("c").max = cut
	if k-cut > cut {
		n.kid("c").max = k - cut
	}
	start, end := xml.StartElement{Name: nm("a")}, xml.EndElement{Name: nm("a")}
	toks := []xml.Token{start}
	for i := 0; i < k; i++ {
		if i == cut {
			toks = append(toks, end, start)
		}
		v := vals[nd.Choose(len(vals))]
		st := xml.StartElement{Name: nm("c")}
		if text {
			n.kid("c").texts = append(n.kid("c").texts, v)
			toks = append(toks, st, xml.CharData(v), xml.EndElement{Name: nm("c")})
		} else {
			n.kid("c").attr("v", v)
			st.Attr = append(st.Attr, xml.Attr{Name: nm("v"), Value: v})
			toks = append(toks, st, xml.EndElement{Name: nm("c")})
		}
	}
	toks = append(toks, end)
	if cut == 0 {
		nd.Reach("repeated")
	}
	check(infer(&reader{toks: toks, err: io.EOF}), top)
}

// Types infers the types of an attribute and of a text from arbitrary values.
func Types() {
	k := 1 + nd.Choose(nd.Param("n", 2))
	top := &node{}
	n := top.kid("a")
	text := nd.Choose(2) == 1
	toks := []xml.Token{xml.StartElement{Name: nm("a")}}
	for i := 0; i < k; i++ {
		v := nd.StrUpTo(nd.Param("len", 2))
		for j := 0; j < len(v); j++ {
			nd.Assume(nd.And(nd.And(v[j] >= ' ', v[j] < 127), v[j] != '_')) // Go's numbers may have underscores
		}
		st := xml.StartElement{Name: nm("c")}
		if text {
			n.kid("c").texts = append(n.kid("c").texts, v)
			toks = append(toks, st, xml.CharData(v), xml.EndElement{Name: nm("c")})
		} else {
			n.kid("c").attr("v", v)
			st.Attr = append(st.Attr, xml.Attr{Name: nm("v"), Value: v})
			toks = append(toks, st, xml.EndElement{Name: nm("c")})
		}
	}
	n.kid("c").max = k
	toks = append(toks, xml.EndElement{Name: nm("a")})
	s := check(infer(&reader{toks: toks, err: io.EOF}), top)
	nd.Reach(s[len(s)-1].fields[0].typ)
}

// TypesLong has one longer value.
func TypesLong() { Types() }

// Numbers infers the types of numbers at the bounds of the types.
func Numbers() {
	vals := []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e308", "1e309", "007", "0x10", "1", ""}
	types := []int{0, 1, 0, 1, 1, 2, 0, 2, 0, 2}
	t := 0
	toks := []xml.Token{}
	for i := 0; i < nd.Param("n", 2); i++ {
		k := nd.Choose(len(vals))
		if types[k] > t {
			t = types[k]
		}
		toks = append(toks, xml.StartElement{Name: nm("a"), Attr: []xml.Attr{{Name: nm("v"), Value: vals[k]}}}, xml.EndElement{Name: nm("a")})
	}
	s := parse(infer(&reader{toks: toks, err: io.EOF}))
	nd.Assert(len(s) == 1 && len(s[0].fields) == 1 && s[0].fields[0].typ == []string{"int64", "double", "string"}[t], "type-of-every-value")
	nd.Reach("done")
}

// name is an arbitrary XML name of the alphabet.
func name() xml.Name {
	const alphabet = "_aB1-.\xc3\xa9"
	n := 1 + nd.Choose(nd.Param("len", 2))
	s := ""
	for i := 0; i < n; i++ {
		k := nd.Choose(7)
		nd.Assume(i > 0 || k <= 2 || k == 6)
		if k == 6 {
			s += alphabet[6:]
		} else {
			s += alphabet[k : k+1]
		}
	}
	return xml.Name{Space: []string{"", "n"}[nd.Choose(nd.Param("spaces", 2))], Local: s}
}

// Names infers schemas from documents with any names.
func Names() {
	x, y := name(), name()
	st := xml.StartElement{Name: nm("r")}
	var toks []xml.Token
	switch nd.Choose(4) {
	case 0: // two attributes
		nd.Assume(x != y)
		st.Attr = []xml.Attr{{Name: x, Value: "1"}, {Name: y, Value: "2"}}
		toks = []xml.Token{st}
	case 1: // an attribute and an element
		st.Attr = []xml.Attr{{Name: x, Value: "1"}}
		toks = []xml.Token{st, xml.StartElement{Name: y}, xml.EndElement{Name: y}}
	case 2: // two elements with attributes
		nd.Assume(x != y)
		a := []xml.Attr{{Name: nm("v"), Value: "1"}}
		toks = []xml.Token{st, xml.StartElement{Name: x, Attr: a}, xml.EndElement{Name: x}, xml.StartElement{Name: y, Attr: a}, xml.EndElement{Name: y}}
	case 3: // an element in another
		a := []xml.Attr{{Name: nm("v"), Value: "1"}}
		toks = []xml.Token{st, xml.StartElement{Name: x}, xml.StartElement{Name: y, Attr: a}, xml.EndElement{Name: y}, xml.EndElement{Name: x}}
	}
	toks = append(toks, xml.EndElement{Name: nm("r")})
	s := parse(infer(&reader{toks: toks, err: io.EOF}))
	n := 0
	for _, m := range s {
		n += len(m.fields)
	}
	switch {
	case len(s) == 1:
		nd.Assert(n == 2, "every-field")
	case len(s) == 3 && n == 4:
		nd.Reach("two-elements")
	default:
		nd.Assert(len(s) == 3 && n == 3, "every-field")
		nd.Reach("nested")
	}
}

// Orders prints a schema twice with any order of the maps.
func Orders() {
	vals := []string{"p", "q", "r", "1", "2", "3", "4"}
	var toks []xml.Token
	n := nd.Param("n", 3)
	for i := 0; i < n; i++ {
		k := i
		if nd.Choose(2) == 1 {
			k = nd.Choose(i + 1)
		}
		toks = append(toks, xml.StartElement{Name: nm("a"), Attr: []xml.Attr{{Name: nm("v"), Value: vals[k]}}}, xml.EndElement{Name: nm("a")})
	}
	res, err := xmlinfer.Infer(&reader{toks: toks, err: io.EOF})
	nd.Assert(err == nil, "inferred")
	one, err := res.ProtoFile()
	nd.Assert(err == nil, "printed")
	nd.MapOrder(true)
	two, err := res.ProtoFile()
	nd.MapOrder(false)
	nd.Assert(err == nil && one == two, "same-text-for-every-order")
	nd.Reach("done")
}

var errRead = errors.New("read")

// Streams infers from streams of tokens that end early, are not balanced or fail.
func Streams() {
	var toks []xml.Token
	var stack []xml.Name
	names := []xml.Name{nm("a"), nm("b"), {Space: "n", Local: "a"}}
	bad := false
	roots := 0
	n := nd.Choose(nd.Param("n", 5) + 1)
	for i := 0; i < n; i++ {
		switch nd.Choose(5) {
		case 0:
			k := names[nd.Choose(3)]
			toks = append(toks, xml.StartElement{Name: k})
			if !bad {
				if len(stack) == 0 {
					roots++
				}
				stack = append(stack, k)
			}
		case 1:
			k := names[nd.Choose(3)]
			toks = append(toks, xml.EndElement{Name: k})
			if len(stack) == 0 || stack[len(stack)-1] != k {
				bad = true
			} else if !bad {
				stack = stack[:len(stack)-1]
			}
		case 2:
			toks = append(toks, xml.CharData("t"))
		case 3:
			toks = append(toks, xml.Comment("t"))
		case 4:
			toks = append(toks, nil)
		}
	}
	r := &reader{toks: toks, err: io.EOF, with: nd.Choose(2) == 1}
	if nd.Choose(2) == 1 {
		r.err = errRead
		bad = true
	}
	if len(stack) > 0 {
		bad = true
	}
	_, err := xmlinfer.Infer(r)
	nd.Assert((err != nil) == bad, "error-for-bad-streams")
	if !bad && roots > 0 {
		nd.Reach("good")
	}
	if bad {
		nd.Reach("bad")
	}
}
