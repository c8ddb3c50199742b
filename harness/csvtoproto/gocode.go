package csvtoproto

import (
	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	rpb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/zz_verif/nd"
)

// A small lexer for Go: identifiers and numbers (i), strings (s, with their value), single characters (p).

// goString reads an interpreted string literal.
func goString(s string) (token, string) {
	var out []byte
	for i := 1; i < len(s); i++ {
		switch c := s[i]; c {
		case '"':
			return token{'s', string(out)}, s[i+1:]
		case '\n':
			return token{'x', ""}, ""
		case '\\':
			i++
			if i == len(s) {
				return token{'x', ""}, ""
			}
			n := 0
			switch s[i] {
			case '\\', '"':
				out = append(out, s[i])
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'a':
				out = append(out, 7)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'v':
				out = append(out, 11)
			case 'x':
				n = 2
			case 'u':
				n = 4
			case 'U':
				n = 8
			default:
				return token{'x', ""}, ""
			}
			if n > 0 {
				v := 0
				for k := 1; k <= n; k++ {
					if i+k >= len(s) || hexVal(s[i+k]) < 0 {
						return token{'x', ""}, ""
					}
					v = v<<4 + hexVal(s[i+k])
				}
				if n == 2 {
					out = append(out, byte(v))
				} else {
					out = append(out, string(rune(v))...)
				}
				i += n
			}
		default:
			out = append(out, c)
		}
	}
	return token{'x', ""}, ""
}

func goLex(s string) (token, string) {
	for {
		for len(s) > 0 && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s[0] == '\r') {
			s = s[1:]
		}
		if len(s) > 1 && s[0] == '/' && s[1] == '/' {
			for len(s) > 0 && s[0] != '\n' {
				s = s[1:]
			}
			continue
		}
		break
	}
	if len(s) == 0 {
		return token{'e', ""}, s
	}
	switch {
	case identByte(s[0]) && s[0] != '.':
		i := 0
		for i < len(s) && identByte(s[i]) && s[i] != '.' {
			i++
		}
		return token{'i', s[:i]}, s[i:]
	case s[0] == '"':
		return goString(s)
	case s[0] == '`':
		var out []byte
		for i := 1; i < len(s); i++ {
			if s[i] == '`' {
				return token{'s', string(out)}, s[i+1:]
			}
			if s[i] != '\r' {
				out = append(out, s[i])
			}
		}
		return token{'x', ""}, ""
	}
	return token{'p', s[:1]}, s[1:]
}

func goTokens(s string) []token {
	var out []token
	for {
		var t token
		t, s = goLex(s)
		if t.kind == 'e' {
			return out
		}
		out = append(out, t)
		if t.kind == 'x' {
			return out
		}
	}
}

// find gives the place after the first occurrence of the words.
func find(ts []token, words ...string) int {
	for i := 0; i+len(words) <= len(ts); i++ {
		ok := true
		for k, w := range words {
			if ts[i+k].kind == 's' || ts[i+k].text != w {
				ok = false
				break
			}
		}
		if ok {
			return i + len(words)
		}
	}
	return -1
}

// tagColumn gives the value of key csv in a struct tag.
func tagColumn(tag string) (string, bool) {
	if len(tag) < 6 || tag[:4] != "csv:" || tag[4] != '"' {
		return "", false
	}
	t, rest := goString(tag[4:])
	return t.text, t.kind == 's' && rest == ""
}

// pbName gives the Go name of a message or field, as the documentation of protocol buffers for Go has it.
func pbName(s string) string {
	var out []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		lower := i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z'
		switch {
		case c == '_' && i == 0:
			out, up = append(out, 'X'), true
		case c == '_' && lower:
			up = true
		case c >= 'a' && c <= 'z':
			if up {
				c -= 32
			}
			out, up = append(out, c), false
		case c >= '0' && c <= '9' || c == '_':
			out, up = append(out, c), true
		default:
			out, up = append(out, c), false
		}
	}
	return string(out)
}

var reserved = []string{"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor"}

func pbFieldNames(names []string) []string {
	var used, out []string
	used = append(used, reserved...)
	has := func(s string) bool {
		for _, u := range used {
			if u == s {
				return true
			}
		}
		return false
	}
	for _, n := range names {
		g := pbName(n)
		for has(g) || has("Get"+g) {
			g += "_"
		}
		used = append(used, g, "Get"+g)
		out = append(out, g)
	}
	return out
}

func goGen(m *rpb.RecordProtoMapping) []token {
	protoText, text, err := csvtoproto.GenerateCode(m, false, true)
	nd.Assert(err == nil, "generated")
	nd.Assert(protoText == "", "no-proto")
	return goTokens(text)
}

func goMapping(cols ...*rpb.ColumnToFieldMapping) *rpb.RecordProtoMapping {
	m := mapping(cols...)
	m.GoOptions = &rpb.GoOptions{GoPackageName: "conv", ProtoImport: "path/to/pb"}
	return m
}

// word compares the tokens at a place with the words.
func word(ts []token, i int, words ...string) bool {
	if i < 0 || i+len(words) > len(ts) {
		return false
	}
	for k, w := range words {
		if ts[i+k].kind == 's' || ts[i+k].text != w {
			return false
		}
	}
	return true
}

// judge finds every mapped column in the code.
func judgeGo(m *rpb.RecordProtoMapping, ts []token) {
	nd.Assert(word(ts, 0, "package", m.GoOptions.GoPackageName), "package")
	imp := find(ts, "import", "(")
	nd.Assert(imp > 0, "imports")
	pb := false
	for i := imp; i > 0 && i < len(ts) && ts[i].text != ")"; i++ {
		if ts[i].kind == 's' && ts[i].text == m.GoOptions.ProtoImport {
			pb = word(ts, i-1, "pb")
		}
	}
	nd.Assert(pb, "proto-import")
	msg := pbName(m.MessageName)
	st := -1
	for i := range ts {
		if word(ts, i, "type") && word(ts, i+2, "struct", "{") && !word(ts, i+1, "Reader") {
			nd.Assert(st < 0, "one-record-type")
			st = i
		}
	}
	nd.Assert(st >= 0, "record-type")
	if st < 0 {
		return
	}
	rec := ts[st+1].text
	nd.Assert(find(ts, "func", rec) < 0, "record-type-name")
	pr := find(ts, "Proto", "(", ")", "(", "*", "pb", ".", msg, ",", "error", ")", "{")
	nd.Assert(pr > 0, "proto-method")
	lit := find(ts, "return", "&", "pb", ".", msg, "{")
	nd.Assert(lit > pr, "message-literal")
	var names []string
	for _, c := range m.ColumnToFieldMappings {
		if !c.Ignored {
			names = append(names, c.ProtoName)
		}
	}
	for _, e := range m.ExtraFieldDefinitions {
		names = append(names, e.ProtoName)
	}
	goNames := pbFieldNames(names)
	i, k := st+4, 0
	for _, c := range m.ColumnToFieldMappings {
		if c.Ignored {
			continue
		}
		if i+2 >= len(ts) || lit < 0 || lit+2 >= len(ts) {
			nd.Assert(false, "missing-field")
			return
		}
		name, typ, tag := ts[i].text, ts[i+1].text, ts[i+2]
		col, ok := tagColumn(tag.text)
		nd.Assert(tag.kind == 's' && ok, "tag")
		nd.Assert(col == c.ColName, "column")
		nd.Assert(name != "Proto" && name[0] >= 'A' && name[0] <= 'Z', "exported-field")
		for j := st + 4; j < i; j += 3 {
			nd.Assert(ts[j].text != name, "distinct-fields")
		}
		nd.Assert(word(ts, lit, goNames[k], ":"), "message-field")
		k++
		basic := map[string]string{"int32": "int32", "int64": "int64", "float": "float32", "double": "float64", "string": "string"}
		if b := basic[c.ProtoType]; b != "" {
			nd.Assert(typ == b, "field-type")
			nd.Assert(word(ts, lit+2, "r", ".", name, ","), "value")
			lit += 6
		} else {
			conv, method, under, unit := "TimeToTimestamp", "time", "Time", "layout"
			if c.ProtoType == "google.protobuf.Duration" {
				conv, method, under, unit = "DurationToDurationProto", "duration", "Duration", "unit"
			}
			v := ts[lit+2].text
			nd.Assert(word(ts, lit+3, ","), "value")
			at := find(ts[pr:], v, ",", "err", ":", "=", "csvtoprotoparse", ".", conv, "(", "r", ".", name, ".", method, "(", ")", ")")
			nd.Assert(at > 0, "converted-value")
			first := find(ts[pr:], v, ",", "err", ":", "=")
			nd.Assert(first > 0 && find(ts[pr+first:], v, ",", "err", ":", "=") < 0, "converted-once")
			decl := find(ts, "type", typ, "time", ".", under)
			nd.Assert(decl > 0, "declared-type")
			if decl > 0 {
				nd.Assert(find(ts[decl:], "type", typ, "time") < 0, "declared-once")
				u := find(ts[decl:], "const", unit, "=")
				nd.Assert(u > 0, "layout")
				if u > 0 {
					want := c.GetTimeFormat().GetGoLayout()
					if under == "Duration" {
						want = c.GetDurationFormat().GetGoUnitSuffix()
					} else {
						zone := c.GetTimeFormat().GetTimeZoneName()
						if zone == "" {
							zone = "UTC"
						}
						z := find(ts[decl:], "MustLoadLocation", "(")
						nd.Assert(z > 0 && ts[decl+z].kind == 's' && ts[decl+z].text == zone, "zone")
					}
					nd.Assert(ts[decl+u].kind == 's' && ts[decl+u].text == want, "layout")
				}
				nd.Assert(find(ts[decl:], "dst", "*", typ, ")", "error", "{") > 0, "decoder")
			}
			lit += 4
		}
		i += 3
	}
	nd.Assert(word(ts, i, "}"), "no-other-column")
	nd.Assert(word(ts, lit, "}"), "no-other-value")
}

var goTypes = []string{"int32", "google.protobuf.Timestamp", "google.protobuf.Duration", "string", "int64", "float", "double"}

func format(c *rpb.ColumnToFieldMapping, layout, zone string) {
	switch c.ProtoType {
	case "google.protobuf.Timestamp":
		c.ParsingInfo = &rpb.ColumnToFieldMapping_TimeFormat{TimeFormat: &rpb.TimeFormat{GoLayout: layout, TimeZoneName: zone}}
	case "google.protobuf.Duration":
		c.ParsingInfo = &rpb.ColumnToFieldMapping_DurationFormat{DurationFormat: &rpb.DurationFormat{GoUnitSuffix: layout}}
	}
}

// GoText prints columns with any name, layout and zone.
func GoText() {
	n := nd.Param("n", 3)
	build := func(col, layout, zone string, typ int) []token {
		c := &rpb.ColumnToFieldMapping{ColName: col, ProtoName: "x", ProtoType: goTypes[typ], ProtoTag: 1}
		d := &rpb.ColumnToFieldMapping{ColName: "other", ProtoName: "y", ProtoType: "int64", ProtoTag: 2}
		format(c, layout, zone)
		m := goMapping(c, d)
		ts := goGen(m)
		judgeGo(m, ts)
		return ts
	}
	any := nd.Str(nd.Choose(n + 1))
	typ := nd.Choose(4)
	var a, b []token
	switch k := nd.Choose(3); {
	case k == 0:
		a, b = build(any, "2006", "", typ), build("c", "2006", "", typ)
	case k == 1:
		a, b = build("c", any, "UTC", typ), build("c", "2006", "UTC", typ)
	default:
		nd.Assume(any != "")
		a, b = build("c", "2006", any, typ), build("c", "2006", "UTC", typ)
	}
	// the text is inside of one literal: everything else is as with a plain text, whose code is formatted by go/format
	nd.Assert(len(a) == len(b), "same-code")
	if len(a) != len(b) {
		return
	}
	differ := 0
	for i := range a {
		if a[i].kind != b[i].kind || a[i].kind != 's' && a[i].text != b[i].text {
			nd.Assert(false, "same-code")
		}
		if a[i].kind == 's' && a[i].text != b[i].text {
			differ++
		}
	}
	nd.Assert(differ <= 1, "one-literal")
	nd.Reach("generated")
}

var goFields = [][3]string{{"a", "get_a", "X3"}, {"a_1", "a1", "a__1"}, {"string", "proto", "err"}, {"a", "a_", "get_a_"}, {"URL", "x2y", "url"},
	{"aB_c", "err", "a_bc"}, {"proto", "proto_", "x1"}, {"get_a", "a", "x2"}, {"descriptor", "reset", "string_"}}

// GoColumns has any number of columns of any type.
func GoColumns() {
	m := goMapping()
	shape := nd.Choose(4)
	m.MessageName = [...]string{"Msg", "new", "my_msg", "New"}[shape]
	max := nd.Param("n", 2)
	names := goFields[nd.Choose(len(goFields))]
	for i, k := 0, nd.Choose(max+1); i < k; i++ {
		c := &rpb.ColumnToFieldMapping{ColName: [...]string{"first col", "b", "c,d"}[i], ColumnIndex: int32(i), ProtoTag: int32(i + 1)}
		c.ProtoType = goTypes[nd.Choose(len(goTypes))]
		c.Ignored = nd.Choose(2) == 0
		c.ProtoName = names[i]
		format(c, [...]string{"2006-01-02", "s", "h"}[i], [...]string{"", "UTC", "Asia/Tokyo"}[i])
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
	}
	if shape == 2 {
		m.ExtraFieldDefinitions = []*rpb.FieldDefinition{{ProtoName: "extra", ProtoType: "int32", ProtoTag: 9}}
	}
	judgeGo(m, goGen(m))
	nd.Reach("generated")
}

// Pipeline infers a mapping from a sample with any name of a column and turns it into code as is.
func Pipeline() {
	name := nd.Str(nd.Choose(nd.Param("n", 2) + 1))
	for i := 0; i < len(name); i++ {
		nd.Assume(nd.And(nd.Not(name[i] == '"'), nd.Not(name[i] == '\r')))
	}
	values := [...]string{"", "5", "x\ny", "2016-01-02", "2016-01-02 03:04:05 PM", "1.5"}
	first, second := nd.Choose(len(values)), nd.Choose(len(values))
	other := [...]string{"b", "", "1", "proto"}[nd.Choose(4)]
	text := "\"" + name + "\"," + other + "\n\"" + values[first] + "\",\"" + values[second] + "\"\n"
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "Msg", PackageName: "a.b", GoPackageName: "conv", GoProtoImport: "path/to/pb"})
	nd.Assert(err == nil, "inferred")
	if err != nil {
		return
	}
	m := ip.Mapping()
	cols := m.ColumnToFieldMappings
	nd.Assert(len(cols) == 2, "every-column")
	if len(cols) != 2 {
		return
	}
	for i, c := range cols {
		nd.Assert(int(c.ColumnIndex) == i && !c.Ignored, "index")
		nd.Assert(c.ColName == [...]string{name, other}[i], "column-name")
	}
	nd.Assert(cols[0].ProtoTag != cols[1].ProtoTag && cols[0].ProtoName != cols[1].ProtoName, "distinct")
	f := gen(m)
	nd.Assert(len(f.fields) == 2, "fields")
	judgeGo(m, goGen(m))
	nd.Reach("generated")
}

// Agree infers a type from any cell, which a converter has to read as that type.
func Agree() {
	n := nd.Param("n", 4)
	var v string
	if nd.Bool() {
		v = nd.StrIn("0127xXbo_eEp.+-NaIinf", nd.Choose(n+1))
	} else {
		v = nd.Str(nd.Choose(n))
	}
	m := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "Msg", PackageName: "a.b", GoPackageName: "conv", GoProtoImport: "path/to/pb"})
	nd.Assert(m.AddRow([]string{"c"}) == nil && m.AddRow([]string{v}) == nil, "added")
	ip, err := m.Build()
	nd.Assert(err == nil, "inferred")
	if err != nil {
		return
	}
	ctx := csvcoder.NewCellContext(csvcoder.NewRow([]string{v}, csvcoder.NewHeader([]string{"c"}), 2, "f"))
	switch ip.Mapping().ColumnToFieldMappings[0].ProtoType {
	case "int64":
		var x int64
		nd.Assert(csvcoder.ParseCell(ctx, v, &x) == nil, "integer")
		nd.Reach("integer")
	case "float":
		var x float32
		nd.Assert(csvcoder.ParseCell(ctx, v, &x) == nil, "float")
		nd.Reach("float")
	case "string":
		var x string
		nd.Assert(csvcoder.ParseCell(ctx, v, &x) == nil && x == v, "string")
		nd.Reach("string")
	}
}
