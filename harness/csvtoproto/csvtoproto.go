// Package csvtoproto holds the harnesses for package csvtoproto (P23, P24).
package csvtoproto

import (
	"github.com/google/xtoproto/csvtoproto"
	rpb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/zz_verif/nd"
)

// A small parser for the .proto files that are generated, written from the protobuf language specification.
type token struct {
	kind byte // i(dentifier or number), s(tring), p(unctuation), c(omment), e(nd), x(error)
	text string
}

func identByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// lex gives the token at the start of s and the rest.
func lex(s string) (token, string) {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s[0] == '\r' || s[0] == '\v' || s[0] == '\f') {
		s = s[1:]
	}
	if len(s) == 0 {
		return token{'e', ""}, s
	}
	if len(s) > 1 && s[0] == '/' && s[1] == '/' {
		i := 2
		for i < len(s) && s[i] != '\n' {
			i++
		}
		return token{'c', s[2:i]}, s[i:]
	}
	if identByte(s[0]) {
		i := 0
		for i < len(s) && identByte(s[i]) {
			i++
		}
		return token{'i', s[:i]}, s[i:]
	}
	if s[0] == '"' {
		var out []byte
		for i := 1; i < len(s); i++ {
			switch c := s[i]; c {
			case '"':
				return token{'s', string(out)}, s[i+1:]
			case '\n', 0:
				return token{'x', ""}, ""
			case '\\':
				i++
				if i == len(s) {
					return token{'x', ""}, ""
				}
				switch s[i] {
				case '\\', '"', '\'':
					out = append(out, s[i])
				case 'n':
					out = append(out, '\n')
				case 'r':
					out = append(out, '\r')
				case 't':
					out = append(out, '\t')
				case 'a':
					out = append(out, 7)
				case 'b':
					out = append(out, 8)
				case 'f':
					out = append(out, 12)
				case 'v':
					out = append(out, 11)
				case 'x':
					if i+2 >= len(s) || hexVal(s[i+1]) < 0 || hexVal(s[i+2]) < 0 {
						return token{'x', ""}, ""
					}
					out = append(out, byte(hexVal(s[i+1])<<4+hexVal(s[i+2])))
					i += 2
				default:
					return token{'x', ""}, ""
				}
			default:
				out = append(out, c)
			}
		}
		return token{'x', ""}, ""
	}
	return token{'p', s[:1]}, s[1:]
}

type field struct{ typ, name, tag, comment string }

type file struct {
	pkg, msg string
	imports  []string
	fields   []field
}

type parser struct {
	s       string
	comment string // the comments before the current token, each line ended by a newline
	tok     token
	bad     bool
}

func (p *parser) next() {
	p.comment = ""
	for {
		p.tok, p.s = lex(p.s)
		if p.tok.kind != 'c' {
			break
		}
		p.comment += p.tok.text + "\n"
	}
	if p.tok.kind == 'x' {
		p.bad = true
	}
}

func (p *parser) want(text string) {
	if p.tok.kind == 's' || p.tok.text != text {
		p.bad = true
	}
	p.next()
}

func (p *parser) take(kind byte) string {
	if p.tok.kind != kind {
		p.bad = true
	}
	t := p.tok.text
	p.next()
	return t
}

func (p *parser) isWord(text string) bool { return p.tok.kind == 'i' && p.tok.text == text }

func parse(s string) (f file, ok bool) {
	p := &parser{s: s}
	p.next()
	p.want("syntax")
	p.want("=")
	if p.take('s') != "proto3" {
		return f, false
	}
	p.want(";")
	for !p.bad && p.tok.kind != 'e' {
		switch {
		case p.isWord("package") && f.pkg == "":
			p.next()
			f.pkg = p.take('i')
			p.want(";")
		case p.isWord("import"):
			p.next()
			f.imports = append(f.imports, p.take('s'))
			p.want(";")
		case p.isWord("message") && f.msg == "":
			p.next()
			f.msg = p.take('i')
			p.want("{")
			for !p.bad && !(p.tok.kind == 'p' && p.tok.text == "}") {
				var fd field
				fd.comment = p.comment
				fd.typ = p.take('i')
				fd.name = p.take('i')
				p.want("=")
				fd.tag = p.take('i')
				p.want(";")
				f.fields = append(f.fields, fd)
			}
			p.want("}")
		default:
			return f, false
		}
	}
	return f, !p.bad
}

func solid(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n', '\t', '\r', '\v', '\f':
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// printable tells whether a text holds letters and digits only.
func printable(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, nd.And(identByte(s[i]), s[i] != '.'))
	}
	return ok
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func itoa(n int32) string {
	if n == 0 {
		return "0"
	}
	var b [11]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = '0' + byte(n%10)
		n /= 10
	}
	return string(b[i:])
}

func gen(m *rpb.RecordProtoMapping) file {
	text, goText, err := csvtoproto.GenerateCode(m, true, false)
	nd.Assert(err == nil, "generated")
	nd.Assert(goText == "", "no-go-code")
	f, ok := parse(text)
	nd.Assert(ok, "legal-file")
	if !ok {
		return f
	}
	nd.Assert(f.pkg == m.PackageName, "package")
	nd.Assert(f.msg == m.MessageName, "message")
	k := 0
	var imports []string
	expect := func(typ, name string, tag int32, imps []string) string {
		imports = append(imports, imps...)
		if k >= len(f.fields) {
			nd.Assert(false, "missing-field")
			return ""
		}
		fd := f.fields[k]
		k++
		nd.Assert(fd.typ == typ, "type")
		nd.Assert(fd.name == name, "name")
		nd.Assert(fd.tag == itoa(tag), "number")
		return fd.comment
	}
	for _, c := range m.ColumnToFieldMappings {
		if c.Ignored {
			continue
		}
		got := solid(expect(c.ProtoType, c.ProtoName, c.ProtoTag, c.ProtoImports))
		want := solid(c.Comment)
		// the comment is followed by a note that names the column
		if c.ColName != "" && solid(c.ColName) == c.ColName && printable(c.ColName) {
			nd.Assert(contains(got[min(len(want), len(got)):], c.ColName), "column-named")
		}
		nd.Assert(len(got) >= len(want) && got[:len(want)] == want, "comment")
		nd.Assert(len(got) > len(want), "column-note")
	}
	for _, e := range m.ExtraFieldDefinitions {
		got := expect(e.ProtoType, e.ProtoName, e.ProtoTag, e.ProtoImports)
		nd.Assert(solid(got) == solid(e.Comment), "extra-comment")
	}
	nd.Assert(k == len(f.fields), "no-other-field")
	for i, x := range f.imports {
		found := false
		for _, y := range imports {
			found = found || x == y
		}
		nd.Assert(found, "import-needed")
		for _, y := range f.imports[:i] {
			nd.Assert(x != y, "import-once")
		}
	}
	for _, y := range imports {
		found := false
		for _, x := range f.imports {
			found = found || x == y
		}
		nd.Assert(found, "imported")
	}
	return f
}

func mapping(cols ...*rpb.ColumnToFieldMapping) *rpb.RecordProtoMapping {
	return &rpb.RecordProtoMapping{PackageName: "a.b", MessageName: "Msg", ColumnToFieldMappings: cols}
}

// Comment gives a column and an extra field any comment.
func Comment() {
	n := nd.Param("n", 5)
	pre := [...]string{"", "some\u00a0words", "0123456789 123456789 123456789 123456789 123456789 123456789 123456", "01234567890123456789012345678901234567890123456789012345678901234567890123456789"}[nd.Choose(4)]
	c := pre + nd.StrIn("\n\r\t a/*\"\\;}", nd.Choose(n+1))
	if nd.Choose(2) == 0 {
		c += " a long tail of words that has to be wrapped as it ends beyond the 80th column"
	}
	m := mapping(&rpb.ColumnToFieldMapping{ColName: "col", ProtoName: "x", ProtoType: "int32", ProtoTag: 1})
	if nd.Choose(2) == 0 {
		m.ColumnToFieldMappings[0].Comment = c
	} else {
		m.ExtraFieldDefinitions = []*rpb.FieldDefinition{{Comment: c, ProtoName: "y", ProtoType: "string", ProtoTag: 2}}
	}
	gen(m)
	nd.Reach("commented")
}

// LongWords gives a field a comment with words of many lengths.
func LongWords() {
	word := func(k int) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		return string(b)
	}
	sizes := [...]int{1, 74, 75, 76, 80, 130, 1030}
	c := word(sizes[nd.Choose(len(sizes))]) + nd.StrIn("\n a", 1) + word(sizes[nd.Choose(len(sizes))])
	m := mapping(&rpb.ColumnToFieldMapping{ColName: word(sizes[4*nd.Choose(2)]), ProtoName: "x", ProtoType: "int32", ProtoTag: 1})
	if nd.Choose(2) == 0 {
		m.ColumnToFieldMappings[0].Comment = c
	} else {
		m.ExtraFieldDefinitions = []*rpb.FieldDefinition{{Comment: c, ProtoName: "y", ProtoType: "string", ProtoTag: 2}}
	}
	gen(m)
	nd.Reach("commented")
}

// Column gives a column any name.
func Column() {
	n := nd.Param("n", 4)
	name := nd.Str(nd.Choose(n + 1))
	m := mapping(&rpb.ColumnToFieldMapping{ColName: name, ProtoName: "x", ProtoType: "int32", ProtoTag: 1, ColumnIndex: 3})
	gen(m)
	nd.Reach("named")
}

// Imports lets every field need any files.
func Imports() {
	nd.MapOrder(true)
	n := nd.Param("n", 3)
	any := func() string { return nd.StrIn("a/\"\\\n.", nd.Choose(n+1)) }
	p, q := any(), any()
	m := mapping(
		&rpb.ColumnToFieldMapping{ProtoName: "x", ProtoType: "int32", ProtoTag: 1, Ignored: nd.Choose(2) == 1},
		&rpb.ColumnToFieldMapping{ProtoName: "y", ProtoType: "p.T", ProtoTag: 2})
	m.ExtraFieldDefinitions = []*rpb.FieldDefinition{{ProtoName: "z", ProtoType: "q.T", ProtoTag: 3, ProtoImports: []string{q}}}
	switch nd.Choose(4) {
	case 0:
		m.ColumnToFieldMappings[0].ProtoImports = []string{p}
	case 1:
		m.ColumnToFieldMappings[1].ProtoImports = []string{p, q}
	case 2:
		m.ColumnToFieldMappings[0].ProtoImports = []string{"c.proto"}
		m.ColumnToFieldMappings[1].ProtoImports = []string{p, "c.proto", p}
	}
	gen(m)
	nd.Reach("imported")
}

// Fields has any number of columns and extra fields.
func Fields() {
	n := nd.Param("n", 2)
	ident := func() string {
		s := nd.StrIn("a_Z9", 1+nd.Choose(n))
		nd.Assume(s[0] != '9')
		return s
	}
	m := mapping()
	m.PackageName = [...]string{"", "p", "a.b.c"}[nd.Choose(3)]
	m.MessageName = ident()
	types := [...]string{"int32", "google.protobuf.Timestamp", "Msg"}
	for i, k := 0, nd.Choose(nd.Param("cols", 2)+1); i < k; i++ {
		c := &rpb.ColumnToFieldMapping{ColName: "c", ProtoName: "x", ProtoType: types[i], ProtoTag: int32(1 + i)}
		switch nd.Choose(3) {
		case 0:
			c.Ignored = true
		case 1:
			c.ProtoName = ident()
			c.ColumnIndex = int32(nd.IntRange(0, 100))
		default:
			c.ProtoTag = int32(nd.IntRange(1, 1<<29-1))
		}
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
	}
	for i, k := 0, nd.Choose(3); i < k; i++ {
		m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, &rpb.FieldDefinition{ProtoName: "e", ProtoType: types[2-i], ProtoTag: int32(10 - i)})
	}
	gen(m)
	nd.Reach("generated")
}
