// Package converted holds the harnesses for converters that package csvtoproto generates (P24).
package converted

import (
	"errors"
	"io"
	"math/bits"
	"strings"
	"time"

	"github.com/google/xtoproto/zz_verif/conv1"
	"github.com/google/xtoproto/zz_verif/convpb"
	"github.com/google/xtoproto/zz_verif/nd"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type col struct {
	name string
	text string // of a plain row
}

var cols = []col{{"n", "1"}, {"a big one", "2"}, {"f", "0.5"}, {"d", "0.25"}, {"the `name`", "x"}, {"when", "2020-07-01 12:00"}, {"seen", "03/02 2001 04h"},
	{"took", "90"}, {"lasts", "2h3m"}, {"proto", "y"}, {"x 1", "7ns"}, {"x 2", "1999-12-31 23:30 +0900"}}

func index(name string) int {
	for i, c := range cols {
		if c.name == name {
			return i
		}
	}
	return -1
}

// plain gives the message of a plain row.
func plain() *convpb.Msg {
	return &convpb.Msg{N: 1, Big: 2, F: 0.5, D: 0.25, Name: "x", When: at(1593619200), Seen: at(981172800), Took: span(5400), Lasts: span(7380), Proto: "y",
		X1: &durationpb.Duration{Nanos: 7}, X2: at(946650600)}
}

func at(secs int64) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: secs} }
func span(secs int64) *durationpb.Duration { return &durationpb.Duration{Seconds: secs} }

func sameTime(a, b *timestamppb.Timestamp) bool {
	return a != nil && nd.And(a.Seconds == b.Seconds, a.Nanos == b.Nanos)
}

func sameSpan(a, b *durationpb.Duration) bool {
	return a != nil && nd.And(a.Seconds == b.Seconds, a.Nanos == b.Nanos)
}

func compare(got, want *convpb.Msg) {
	nd.Assert(got != nil, "message")
	if got == nil {
		return
	}
	nd.Assert(got.N == want.N, "int32")
	nd.Assert(got.Big == want.Big, "int64")
	nd.Assert(got.F == want.F, "float")
	nd.Assert(got.D == want.D, "double")
	nd.Assert(got.Name == want.Name, "string")
	nd.Assert(got.Proto == want.Proto, "field-named-proto")
	nd.Assert(sameTime(got.When, want.When), "timestamp")
	nd.Assert(sameTime(got.Seen, want.Seen), "timestamp-of-default-zone")
	nd.Assert(sameSpan(got.Took, want.Took), "duration-with-unit")
	nd.Assert(sameSpan(got.Lasts, want.Lasts), "duration")
	nd.Assert(sameSpan(got.X1, want.X1), "duration-without-format")
	nd.Assert(sameTime(got.X2, want.X2), "timestamp-with-offset")
	nd.Assert(got.More == 0, "no-other-field")
	nd.Assert(got.Message == nil, "no-other-field")
}

// file gives the text of a file with rows of some cells (nil: a plain row). The columns are rotated and an unknown one
// can be among them.
func file(rows ...[]string) string {
	shift := nd.Choose(nd.Param("shift", 3)) * 5
	extra := nd.Choose(2) == 0
	var order []int
	for i := range cols {
		order = append(order, (i+shift)%len(cols))
	}
	out := ""
	line := func(cell func(i int) string, x string) {
		for k, i := range order {
			if k > 0 {
				out += ","
			}
			if k == 3 && extra {
				out += x + ","
			}
			out += cell(i)
		}
		out += "\n"
	}
	line(func(i int) string { return cols[i].name }, "skipped")
	for _, r := range rows {
		line(func(i int) string {
			if r == nil {
				return cols[i].text
			}
			return r[i]
		}, "junk")
	}
	return out
}

// with gives a plain row with one other cell.
func with(name, cell string) []string {
	var r []string
	for _, c := range cols {
		if c.name == name {
			r = append(r, cell)
		} else {
			r = append(r, c.text)
		}
	}
	return r
}

// number reads decimal digits; over tells that the value exceeds 64 bits.
func number(s string) (v uint64, ok, over bool) {
	ok = len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, nd.And(s[i] >= '0', s[i] <= '9'))
		hi, lo := bits.Mul64(v, 10)
		d := uint64(s[i] - '0')
		over = nd.Or(over, nd.Or(hi != 0, lo+d < lo))
		v = lo + d
	}
	return v, ok, over
}

func signed(s string) (v int64, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	u, ok, over := number(s)
	lim := uint64(1)<<63 - 1
	if neg {
		lim = 1 << 63
	}
	ok = nd.And(ok, nd.Not(nd.Or(over, u > lim)))
	if neg {
		return -int64(u), ok
	}
	return int64(u), ok
}

// one reads a file of a row with one cell of interest and a plain row.
func one(name, cell string, ok bool, want *convpb.Msg) {
	r, err := conv1.NewReader(strings.NewReader(file(with(name, cell), nil)))
	nd.Assert(err == nil, "reader")
	if err != nil {
		return
	}
	m, err := r.Read()
	if ok {
		nd.Reach("converted")
		nd.Assert(err == nil, "converted")
		if err == nil {
			compare(m, want)
		}
		m, err = r.Read()
		nd.Assert(err == nil, "next-row")
		compare(m, plain())
		_, err = r.Read()
		nd.Assert(err == io.EOF, "end")
		return
	}
	nd.Reach("refused")
	nd.Assert(err != nil, "refused")
	nd.Assert(err != io.EOF, "refused")
}

// Ints converts any short text of an integer column.
func Ints() {
	n := nd.Param("n", 2)
	s := [...]string{"", "-", "+"}[nd.Choose(3)] + [...]string{"", "21474836", "92233720368547758"}[nd.Choose(3)] + nd.StrIn("0123456789_x ", n)
	v, ok := signed(s)
	want := plain()
	if nd.Choose(2) == 0 {
		want.Big = v
		one("a big one", s, ok, want)
		return
	}
	want.N = int32(v)
	one("n", s, nd.And(ok, nd.And(v >= -1<<31, v <= 1<<31-1)), want)
}

// Strings converts any text of a string column, quoted where it has to be.
func Strings() {
	n := nd.Param("n", 3)
	s := nd.StrIn("a ,\"\n`\\\xc3", nd.Choose(n+1))
	q := s
	quote := false
	for i := 0; i < len(s); i++ {
		if s[i] == ',' || s[i] == '"' || s[i] == '\n' {
			quote = true
		}
	}
	if quote || nd.Choose(2) == 0 {
		q = "\""
		for i := 0; i < len(s); i++ {
			if s[i] == '"' {
				q += "\""
			}
			q += s[i : i+1]
		}
		q += "\""
	}
	want := plain()
	if nd.Choose(2) == 0 {
		want.Name = s
		one("the `name`", q, true, want)
		return
	}
	want.Proto = s
	one("proto", q, true, want)
}

func digits(n int) (string, int) {
	s := nd.StrIn("0123456789", n)
	v := 0
	for i := 0; i < n; i++ {
		v = v*10 + int(s[i]-'0')
	}
	return s, v
}

// Times converts texts of the columns with times.
func Times() {
	want := plain()
	switch nd.Choose(3) {
	case 0: // in a zone with a changing offset
		month := 1 + 6*nd.Choose(2)
		h, hour := digits(2)
		m := [...]string{"01", "07"}[month/7]
		off := [...]int{-5, -4}[month/7]
		want.When = at(time.Date(2021, time.Month(month), 9, 0, 5, 0, 0, time.UTC).Unix() + int64(hour-off)*3600)
		one("when", "2021-"+m+"-09 "+h+":05", hour <= 23, want)
	case 1: // in UTC, as no zone is given
		d, day := digits(2)
		want.Seen = at(time.Date(2020, 2, 1, 7, 0, 0, 0, time.UTC).Unix() + int64(day-1)*86400)
		one("seen", d+"/02 2020 07h", nd.And(day >= 1, day <= 29), want)
	default: // with an offset in the text
		z, zone := digits(2)
		want.X2 = at(time.Date(2021, 1, 9, 10, 5, 0, 0, time.UTC).Unix() + int64(zone)*3600)
		nd.Assume(zone < 24)
		one("x 2", "2021-01-09 10:05 -"+z+"00", true, want)
	}
}

// Durations converts texts of the columns with durations.
func Durations() {
	want := plain()
	n := nd.Param("n", 2)
	s := nd.StrIn("0123456789 x", n)
	v, ok, _ := number(s)
	switch nd.Choose(3) {
	case 0:
		want.Took = span(int64(v) * 60)
		one("took", s, ok, want)
	case 1:
		if nd.Choose(2) == 0 {
			want.Lasts = span(int64(v))
			one("lasts", s+"s", ok, want)
			return
		}
		nd.Assume(nd.Or(nd.Not(ok), v > 0))
		one("lasts", s, false, want) // there is no unit
	default:
		want.X1 = span(-int64(v) * 3600)
		one("x 1", "-"+s+"h", ok, want)
	}
}

// Floats converts texts of the columns with floating-point numbers.
func Floats() {
	k := nd.Choose(10)
	d := "0123456789"[k : k+1]
	want := plain()
	if nd.Choose(2) == 0 {
		want.F = float32(k) + 0.5
		switch nd.Choose(3) {
		case 0:
			one("f", d+".5", true, want)
		case 1:
			one("f", d+"e39", k == 0, with0(want))
		default:
			one("f", d+"x", false, want)
		}
		return
	}
	want.D = float64(k) * 1e20
	if nd.Choose(2) == 0 {
		one("d", d+"e20", true, want)
	} else {
		one("d", d+" ", false, want)
	}
}

func with0(m *convpb.Msg) *convpb.Msg { m.F = 0; return m }

// Headers reads files whose header lacks a column.
func Headers() {
	missing := nd.Choose(len(cols) + 1)
	var hs, cs []string
	for i, c := range cols {
		if i != missing {
			hs, cs = append(hs, c.name), append(cs, c.text)
		}
	}
	r, err := conv1.NewReader(strings.NewReader(strings.Join(hs, ",") + "\n" + strings.Join(cs, ",") + "\n"))
	if missing < len(cols) {
		nd.Assert(err != nil, "missing-column")
		nd.Assert(r == nil, "no-reader")
		nd.Reach("missing")
		return
	}
	nd.Assert(err == nil, "reader")
	m, err := r.Read()
	nd.Assert(err == nil, "converted")
	compare(m, plain())
	nd.Reach("read")
}

// Rows reads files of some rows, of which one can be bad, in each of the ways to read them.
func Rows() {
	n := nd.Choose(nd.Param("rows", 3) + 1)
	bad := nd.Choose(n + 1) // n: none
	junk := [...]string{"n", "when", "took", "x 2"}[nd.Choose(4)]
	var rows [][]string
	for i := 0; i < n; i++ {
		if i == bad {
			rows = append(rows, with(junk, "?"))
		} else {
			rows = append(rows, with("n", string(rune('0'+i))))
		}
	}
	text := file(rows...)
	check := func(m *convpb.Msg, i int) {
		want := plain()
		want.N = int32(i)
		compare(m, want)
	}
	switch nd.Choose(3) {
	case 0:
		r, err := conv1.NewReader(strings.NewReader(text))
		nd.Assert(err == nil, "reader")
		all, err := r.ReadAll()
		if bad < n {
			nd.Reach("bad")
			nd.Assert(err != nil, "bad-row")
			nd.Assert(err != io.EOF, "bad-row")
		} else {
			nd.Reach("good")
			nd.Assert(err == nil, "all-rows")
		}
		nd.Assert(len(all) == bad, "all-rows")
		for i := 0; i < bad && i < len(all); i++ {
			check(all[i], i)
		}
	case 1:
		r, err := conv1.NewReader(strings.NewReader(text))
		nd.Assert(err == nil, "reader")
		for i := 0; i < bad; i++ {
			m, err := r.Read()
			nd.Assert(err == nil, "row")
			check(m, i)
		}
		_, err = r.Read()
		nd.Assert(err != nil, "after-rows")
		nd.Assert((err == io.EOF) == (bad == n), "after-rows")
	default:
		r, err := conv1.NewMessageReader(strings.NewReader(text))
		nd.Assert(err == nil, "reader")
		for i := 0; i < bad; i++ {
			x, err := r.ReadMessage()
			nd.Assert(err == nil, "row")
			m, ok := x.(*convpb.Msg)
			nd.Assert(ok, "message-type")
			check(m, i)
		}
		_, err = r.ReadMessage()
		nd.Assert(err != nil, "after-rows")
		nd.Assert((err == io.EOF) == (bad == n), "after-rows")
	}
}


type hook struct {
	calls int
	errs  int
	err   error
	msg   *convpb.Msg
}

var active *hook

// Hooks has a function run after each row. It sees the message and the errors and can add to both.
func Hooks() {
	h := &hook{}
	if nd.Choose(2) == 0 {
		h.err = errHook
	}
	active = h
	conv1.AddReaderParseRowHook(func(r *conv1.Reader, m *convpb.Msg, errs []error) error {
		if active != h {
			return nil
		}
		h.calls++
		h.errs = len(errs)
		h.msg = m
		if m != nil {
			m.More = 5
		}
		return h.err
	})
	year := [...]string{"2000", "0000"}[nd.Choose(2)]
	r, err := conv1.NewReader(strings.NewReader(file(with("seen", "03/02 "+year+" 04h"))))
	nd.Assert(err == nil, "reader")
	m, err := r.Read()
	nd.Assert(h.calls == 1, "hook-called")
	if year == "0000" { // protocol buffers have no such time
		nd.Reach("bad")
		nd.Assert(err != nil, "bad-time")
		nd.Assert(err != h.err, "first-error")
		nd.Assert(h.errs == 1, "errors-shown")
	} else {
		nd.Assert(h.errs == 0, "no-errors")
		nd.Assert(err == h.err, "error-of-hook")
		nd.Assert(m == h.msg, "message-shown")
		nd.Assert(m.More == 5, "message-changed")
		nd.Reach("good")
	}
	_, err = r.Read()
	nd.Assert(err == io.EOF, "end")
	nd.Assert(h.calls == 1, "no-row-no-hook")
	active = nil
}

var errHook = errors.New("hook")
