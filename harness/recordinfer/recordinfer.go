// Package recordinfer holds the harnesses for packages recordinfer and csvinfer (P15, P16, P30).
package recordinfer

import (
	"encoding/csv"
	"strings"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoprotoparse"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/zz_verif/nd"
)

const stampType = "google.protobuf.Timestamp"

// column infers the mapping of a single column holding vals.
func column(loc *time.Location, vals ...string) *pb.ColumnToFieldMapping {
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: loc})
	nd.Assert(b.AddRow([]string{"c"}) == nil, "header")
	for _, v := range vals {
		nd.Assert(b.AddRow([]string{v}) == nil, "row")
	}
	ip, err := b.Build()
	nd.Assert(err == nil, "build")
	ms := ip.Mapping().ColumnToFieldMappings
	nd.Assert(len(ms) == 1, "one-column")
	return ms[0]
}

func layout(m *pb.ColumnToFieldMapping) string {
	if f := m.GetTimeFormat(); f != nil {
		return f.GoLayout
	}
	return ""
}

func zone(m *pb.ColumnToFieldMapping) string {
	if f := m.GetTimeFormat(); f != nil {
		return f.TimeZoneName
	}
	return ""
}

// isInt tells whether s is a decimal integer with at most 18 digits, or exactly compares 19-digit ones.
func isInt(s string) bool {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, nd.And(s[i] >= '0', s[i] <= '9'))
	}
	lim := "9223372036854775807"
	if neg {
		lim = "9223372036854775808"
	}
	for len(s) > len(lim) {
		ok = nd.And(ok, s[0] == '0')
		s = s[1:]
	}
	if len(s) == len(lim) {
		ok = nd.And(ok, s <= lim)
	}
	return ok
}

// check judges the inferred type of a column against its values.
func check(m *pb.ColumnToFieldMapping, vals []string) {
	switch m.ProtoType {
	case "int64":
		nd.Reach("int64")
		for _, v := range vals {
			if v == "" {
				continue
			}
			_, err := csvtoprotoparse.ParseInt64(v)
			nd.Assert(err == nil, "int-parses")
			nd.Assert(isInt(v), "int-in-range")
		}
	case "float":
		nd.Reach("float")
		for _, v := range vals {
			if v == "" {
				continue
			}
			_, err := csvtoprotoparse.ParseFloat(v)
			nd.Assert(err == nil, "float-parses")
		}
	case stampType:
		nd.Reach("timestamp")
		nd.Assert(layout(m) != "", "layout-given")
		for _, v := range vals {
			if v == "" {
				continue
			}
			_, err := csvtoprotoparse.ParseTimestamp(v, layout(m), zone(m))
			nd.Assert(err == nil, "timestamp-parses")
		}
	case "string":
		nd.Reach("string")
		nd.Assert(m.GetTimeFormat() == nil, "string-no-format")
	default:
		nd.Assert(false, "known-type")
	}
}

func same(a, b *pb.ColumnToFieldMapping) bool {
	return a.ProtoType == b.ProtoType && layout(a) == layout(b) && zone(a) == zone(b) && len(a.ProtoImports) == len(b.ProtoImports)
}

// Types infers the type of a column of short texts.
func Types() {
	n := nd.Param("n", 3)
	rows := nd.Param("rows", 2)
	var vals []string
	for i := 0; i < rows; i++ {
		vals = append(vals, nd.StrIn("09-+.e_xia", nd.Choose(n+1)))
		n = nd.Param("n2", 2)
	}
	m := column(nil, vals...)
	check(m, vals)
	rev := make([]string, rows)
	for i, v := range vals {
		rev[rows-1-i] = v
	}
	nd.Assert(same(m, column(nil, rev...)), "order")
}

// Numbers infers a column of long numbers: integers around the 64-bit limits, with and without sign, fraction and exponent.
func Numbers() {
	k := nd.Param("k", 3)
	sign := [...]string{"", "-", "+"}[nd.Choose(3)]
	var num string
	switch nd.Choose(4) {
	case 0: // around the ends of the range
		num = "9223372036854775807"[:19-k] + nd.StrIn("0123456789", k)
	case 1: // one digit more
		num = nd.StrIn("0129", 1) + "922337203685477580" + nd.StrIn("0789", 1)
	case 2: // large floats
		num = [...]string{"3402823", "34028235", "34028236", "1797693134862315"}[nd.Choose(4)] + nd.StrIn("0579", 1) + "e" + [...]string{"29", "30", "31", "32", "33", "293", "300"}[nd.Choose(7)]
	default:
		num = nd.StrIn("0123456789", 1) + nd.StrIn("0123456789.", k)
	}
	vals := []string{sign + num}
	if nd.Choose(2) == 1 {
		vals = append(vals, "7")
		if nd.Choose(2) == 1 {
			vals[0], vals[1] = vals[1], vals[0]
		}
	}
	check(column(nil, vals...), vals)
}

var kinds = []string{"", "1", "-50", "1.5", "1e3", "0x10", "NaN", "abc", "9223372036854775808", "20160102", "20161302", "2016-1-2", "2016/1/2",
	"2016-01-02 15:04:05", "2016-01-02 03:04:05 PM", "1/2/2006 3:04:05 PM", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05.5+01:00", "3:04PM", "Jan  2 15:04:05",
	"Jan  2 15:04:05.000", "Mon Jan  2 15:04:05 2006", "Mon, 02 Jan 2006 15:04:05 UTC", "02 Jan 06 15:04 -0700", "0000-1-2", "9999-12-31", "2016-2-30", "1 ", " 1", "1_000"}

// Mixed infers columns whose rows are of different kinds.
func Mixed() {
	rows := nd.Param("rows", 2)
	var vals []string
	for i := 0; i < rows; i++ {
		vals = append(vals, kinds[nd.Choose(len(kinds))])
	}
	var loc *time.Location
	if nd.Choose(2) == 1 {
		loc = time.UTC
	}
	m := column(loc, vals...)
	check(m, vals)
	if rows > 1 {
		rot := append(append([]string{}, vals[1:]...), vals[0])
		nd.Assert(same(m, column(loc, rot...)), "order")
		rot[0], rot[rows-1] = rot[rows-1], rot[0]
		nd.Assert(same(m, column(loc, rot...)), "order")
	}
}

// Deep infers a column of many equal values and one of another kind in any row.
func Deep() {
	rows := nd.Param("rows", 60)
	vals := make([]string, rows)
	usual := [...]string{"1", "1.5", "2016-01-02"}[nd.Choose(3)]
	for i := range vals {
		vals[i] = usual
	}
	odd := nd.Choose(rows)
	vals[odd] = [...]string{"x", "", "1e5", "7", "2016-02-30", "2016-1-3"}[nd.Choose(6)]
	m := column(nil, vals...)
	check(m, []string{usual, vals[odd]})
	if vals[odd] == "x" {
		nd.Assert(m.ProtoType == "string", "mixed-is-text")
	}
}

// Zones infers columns of times read in a zone with a name.
func Zones() {
	name := [...]string{"UTC", "X/Y", "A"}[nd.Choose(3)]
	off := 0
	if name != "UTC" {
		off = nd.IntRange(-12, 14) * 3600
	}
	loc := time.FixedZone(name, off)
	v := kinds[nd.Choose(len(kinds))]
	m := column(loc, v, v)
	if m.ProtoType != stampType {
		nd.Reach("other")
		return
	}
	nd.Assert(zone(m) == name, "zone-named")
	// the generated code reads the value in the zone of that name
	_, err := time.ParseInLocation(layout(m), v, loc)
	nd.Assert(err == nil, "parses-in-zone")
	nd.Reach("timestamp")
}

func legalName(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := nd.Not(nd.And(s[0] >= '0', s[0] <= '9'))
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = nd.And(ok, nd.Or(nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z')), nd.Or(nd.And(c >= '0', c <= '9'), c == '_')))
	}
	return ok
}

// mapping judges a mapping against the header row.
func mapping(ip *recordinfer.InferredProto, header []string) {
	ms := ip.Mapping().ColumnToFieldMappings
	nd.Assert(len(ms) == len(header), "one-per-column")
	for i, m := range ms {
		nd.Assert(m.ColName == header[i], "column-name")
		nd.Assert(int(m.ColumnIndex) == i, "column-index")
		nd.Assert(m.ProtoTag > 0, "tag-positive")
		nd.Assert(nd.Not(m.Ignored), "kept")
		nd.Assert(legalName(m.ProtoName), "legal-name")
		for _, o := range ms[:i] {
			nd.Assert(nd.Not(o.ProtoName == m.ProtoName), "distinct-names")
			nd.Assert(o.ProtoTag != m.ProtoTag, "distinct-tags")
		}
	}
}

// Names infers a mapping for columns with arbitrary names.
func Names() {
	cols := nd.Param("cols", 2)
	n := nd.Param("n", 3)
	var header, row []string
	for i := 0; i < cols; i++ {
		header = append(header, nd.StrIn("aZ1_ (-\xc3", nd.Choose(n+1)))
		row = append(row, "x")
	}
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p"})
	nd.Assert(b.AddRow(header) == nil, "header")
	nd.Assert(b.AddRow(row) == nil, "row")
	ip, err := b.Build()
	nd.Assert(err == nil, "build")
	nd.Reach("built")
	mapping(ip, header)
}

// AnyName infers a mapping for a column whose name is any text, beside columns with fixed names.
func AnyName() {
	name := nd.Str(nd.Choose(nd.Param("n", 3) + 1))
	if nd.Choose(2) == 1 {
		name = "a b" + name
	}
	header := []string{"a b", name, "a_b", "a b"}
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p"})
	nd.Assert(b.AddRow(header) == nil, "header")
	nd.Assert(b.AddRow([]string{"x", "1", "", "y"}) == nil, "row")
	ip, err := b.Build()
	nd.Assert(err == nil, "build")
	nd.Reach("built")
	mapping(ip, header)
}

// tokens splits the code of a .proto file; comments are dropped.
func tokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
			continue
		case c == '/' && j < len(s) && s[j] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		case c == '"':
			for j < len(s) && s[j] != '"' {
				j++
			}
			j++
		case nameByte(c):
			for j < len(s) && nameByte(s[j]) {
				j++
			}
		}
		if j > len(s) {
			j = len(s)
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func nameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.'
}

// ProtoCode reads the .proto code of an inferred type.
func ProtoCode() {
	cols := nd.Choose(nd.Param("cols", 3)) + 1
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p.q"})
	var header, row []string
	for i := 0; i < cols; i++ {
		header = append(header, [...]string{"a", "b c", "", "1", "message"}[nd.Choose(5)])
		row = append(row, [...]string{"x", "1", "1.5", "2016-01-02"}[nd.Choose(4)])
	}
	nd.Assert(b.AddRow(header) == nil && b.AddRow(row) == nil, "rows")
	ip, err := b.Build()
	nd.Assert(err == nil, "build")
	code := tokens(ip.Code())
	pos := 0
	next := func() string {
		if pos >= len(code) {
			return ""
		}
		pos++
		return code[pos-1]
	}
	want := func(ws ...string) {
		for _, w := range ws {
			nd.Assert(next() == w, "code")
		}
	}
	ms := ip.Mapping().ColumnToFieldMappings
	needed := map[string]bool{}
	for _, m := range ms {
		for _, f := range m.ProtoImports {
			needed[f] = true
		}
	}
	want("syntax", "=", "\"proto3\"", ";", "package", "p.q", ";")
	for pos < len(code) && code[pos] == "import" {
		pos++
		f := next()
		nd.Assert(len(f) > 2 && needed[f[1:len(f)-1]], "import-needed-once")
		if len(f) > 2 {
			delete(needed, f[1:len(f)-1])
		}
		want(";")
	}
	nd.Assert(len(needed) == 0, "imported")
	want("message", "M", "{")
	for _, m := range ms {
		want(m.ProtoType, m.ProtoName, "=", string([]byte{byte('0' + m.ProtoTag)}), ";")
	}
	want("}")
	nd.Assert(pos == len(code), "code-end")
	nd.Reach("read")
}

// Widths adds rows of arbitrary widths.
func Widths() {
	rows := nd.Param("rows", 3)
	b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", PackageName: "p"})
	var header []string
	kept := 0
	for i := 0; i < rows; i++ {
		w := nd.Choose(4)
		row := []string{"p", "q", "r"}[:w]
		err := b.AddRow(row)
		if kept == 0 {
			nd.Assert(err == nil, "first-row")
			header = row
			kept++
			continue
		}
		nd.Assert((err != nil) == (w != len(header)), "width")
		if err == nil {
			kept++
		} else {
			nd.Reach("rejected")
		}
	}
	ip, err := b.Build()
	if kept < 2 || len(header) == 0 {
		nd.Assert(err != nil, "nothing-to-infer")
		nd.Reach("too-small")
		return
	}
	nd.Assert(err == nil, "build")
	mapping(ip, header)
}

// Csv infers a mapping from CSV text.
func Csv() {
	n := nd.Param("n", 6)
	text := nd.StrIn("ab,\n\"1", n)
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "M", PackageName: "p"})
	r := csv.NewReader(strings.NewReader(text))
	r.FieldsPerRecord = -1
	rows, rerr := r.ReadAll()
	if rerr != nil {
		nd.Assert(err != nil, "csv-error")
		nd.Reach("bad-csv")
		return
	}
	ragged := false
	for _, row := range rows {
		if len(row) != len(rows[0]) {
			ragged = true
		}
	}
	if ragged {
		nd.Assert(err != nil, "ragged")
		nd.Reach("ragged")
		return
	}
	if len(rows) < 2 {
		nd.Assert(err != nil, "no-data")
		return
	}
	nd.Assert(err == nil, "good")
	nd.Reach("good")
	mapping(ip, rows[0])
}

// Texts with a fixed shape: ! stands for a digit of the year, @ of the month, # of the day, $ of the hour, % of the minute,
// ^ of the second, & of the fraction of a second * and ~ of the hour and minute of the zone offset; other characters stand for themselves.
var shapes = []struct {
	text  string
	half  int  // 0: 24 hours, 1: AM, 2: PM
	month int  // the month when it is spelled
	off   int  // sign of the zone offset
	not   bool // never a time: no date, or an order that is not supported
}{
	{text: "!!!!-@@-## $$:%%:^^"},
	{text: "!!!!-@@-## $$:%%:^^ AM", half: 1},
	{text: "!!!!-@@-## $$:%%:^^ PM", half: 2},
	{text: "@/#/!!!! $:%%:^^ PM", half: 2},
	{text: "@@/##/!!!! $$:%%:^^ AM", half: 1},
	{text: "!!!!-@-#"},
	{text: "!!!!-@@-##"},
	{text: "!!!!/@/##"},
	{text: "!!!!@@##"},
	{text: "!!!!-@@-##T$$:%%:^^Z"},
	{text: "!!!!-@@-##T$$:%%:^^.&&Z"},
	{text: "!!!!-@@-##T$$:%%:^^+**:~~", off: 1},
	{text: "!!!!-@@-##T$$:%%:^^-**:~~", off: -1},
	{text: "Mon Feb ## $$:%%:^^ !!!!", month: 2},
	{text: "Mon Mar ## $$:%%:^^ UTC !!!!", month: 3},
	{text: "Mon Apr ## $$:%%:^^ -**~~ !!!!", month: 4, off: -1},
	{text: "Mon, ## Nov !!!! $$:%%:^^ UTC", month: 11},
	{text: "Mon, ## Dec !!!! $$:%%:^^ +**~~", month: 12, off: 1},
	{text: "## Jan 16 $$:%% +**~~", month: 1, off: 1},
	{text: "## Jan 16 $$:%% UTC", month: 1},
	{text: "Monday, ##-Jan-16 $$:%%:^^ UTC", month: 1},
	{text: "$:%%PM", not: true},
	{text: "Jan ## $$:%%:^^", not: true},
	{text: "Jan ## $$:%%:^^.&&&", not: true},
	{text: "$$:%%:^^", not: true},
	{text: "##.@@.!!!!", not: true},
	{text: "16-@@-##", not: true},
	{text: "@/#/!!!!", not: true},
	{text: "!!!!-@@-## $$:%%", not: true},
}

const fields = "!@#$%^&*~"

func fieldOf(c byte) int {
	for i := 0; i < len(fields); i++ {
		if fields[i] == c {
			return i
		}
	}
	return -1
}

// timeText draws a text of a shape whose fields in the set free have arbitrary digits, and its components.
func timeText(shape string, year string, free string) (string, [len(fields)]int) {
	var text []byte
	var f, n [len(fields)]int
	for i := 0; i < len(shape); i++ {
		k := fieldOf(shape[i])
		if k < 0 {
			text = append(text, shape[i])
			continue
		}
		var d byte
		if isFree(shape[i], free) && (k != 0 || n[0] >= 4-nd.Param("year", 1)) {
			if shape[i] == '&' || k == 0 {
				d = "0123456789"[nd.Choose(10)]
			} else {
				d = nd.StrIn("0123456789", 1)[0]
			}
		} else if k == 0 {
			d = year[n[0]]
		} else {
			d = '1'
		}
		text = append(text, d)
		f[k] = f[k]*10 + int(d-'0')
		n[k]++
	}
	if n[0] == 0 {
		f[0] = 2016
	}
	return string(text), f
}

func isFree(c byte, free string) bool {
	for i := 0; i < len(free); i++ {
		if free[i] == c {
			return true
		}
	}
	return false
}

func days(y, m int) int {
	leap := nd.And(y%4 == 0, nd.Or(nd.Not(y%100 == 0), y%400 == 0))
	short := nd.Or(nd.Or(m == 4, m == 6), nd.Or(m == 9, m == 11))
	return nd.Ite(m == 2, nd.Ite(leap, 29, 28), nd.Ite(short, 30, 31))
}

// Shapes infers a column of times of one shape with arbitrary digits.
func Shapes() {
	free := [...]string{"!@", "@#", "$%", "^", "&", "*~"}[nd.Choose(6)]
	sh := shapes[nd.Choose(len(shapes))]
	year := "2016"
	if free[0] == '!' {
		year = [...]string{"0000", "2010", "1900", "9990", "2000", "2100"}[nd.Choose(nd.Param("years", 3))]
	}
	v, f := timeText(sh.text, year, free)
	if sh.month != 0 {
		f[1] = sh.month
	}
	y, mon, day, h, min, sec, zh, zm := f[0], f[1], f[2], f[3], f[4], f[5], f[7], f[8]
	ok := nd.And(nd.And(mon >= 1, mon <= 12), nd.And(min <= 59, sec <= 59))
	if sh.half == 0 {
		ok = nd.And(ok, h <= 23)
	} else {
		ok = nd.And(ok, h <= 12)
		h = nd.Ite(h == 12, nd.Ite(sh.half == 2, 12, 0), nd.Ite(sh.half == 2, h+12, h))
	}
	ok = nd.And(ok, nd.And(nd.And(day >= 1, day <= days(y, mon)), y >= 1))
	off := sh.off * (zh*3600 + zm*60)
	m := column(nil, v, v)
	check(m, []string{v})
	if m.ProtoType != stampType {
		return
	}
	nd.Assert(nd.And(ok, !sh.not), "valid-time")
	ts, err := csvtoprotoparse.ParseTimestamp(v, layout(m), zone(m))
	nd.Assert(err == nil, "parses")
	if err != nil {
		return
	}
	mon = nd.Concretize(mon)
	want := time.Date(y, time.Month(mon), day, h, min, sec, 0, time.UTC).Unix() - int64(off)
	nd.Assert(ts.Seconds == want, "instant")
	nd.Assert(int(ts.Nanos) == f[6]*10000000, "fraction")
}
