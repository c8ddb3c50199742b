// Package csvcoder holds the harnesses for package csvcoder (P17).
package csvcoder

import (
	"encoding/csv"
	"errors"
	"io"
	"strings"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/zz_verif/nd"
)

type based int8

type record struct {
	A       int8 `csv:"a"`
	B       string
	Skipped chan int `csv-skip:"yes"`
	C       based    `csv:"c col" other:"x"`
	private int8
	D       bool `csv:"d"`
}

// rows is a reader of rows, one of which cannot be read.
type rows struct {
	rows [][]string
	bad  int
	at   int
}

var errRow = errors.New("bad row")

func (r *rows) Read() ([]string, error) {
	r.at++
	if r.at-1 == r.bad {
		return nil, errRow
	}
	if r.at-1 >= len(r.rows) {
		return nil, io.EOF
	}
	return r.rows[r.at-1], nil
}

var required = []string{"a", "B", "c col", "d"}

// header chooses an order of some columns.
func header(extra int) []string {
	pool := append([]string{"x", "A", "b"}[:extra:extra], required...)
	var out []string
	for len(pool) > 0 {
		i := nd.Choose(len(pool) + 1)
		if i == len(pool) {
			break // the remaining columns are missing
		}
		out = append(out, pool[i])
		pool = append(append([]string(nil), pool[:i]...), pool[i+1:]...)
	}
	return out
}

func index(h []string, name string) int {
	for i, s := range h {
		if s == name {
			return i
		}
	}
	return -1
}

// int8Text tells what a text denotes as an int8.
func int8Text(s string) (int8, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	v := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' || v > 128 {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return int8(v), len(s) > 0 && v >= -128 && v <= 127
}

func boolText(s string) (bool, bool) {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	switch string(b) {
	case "true", "1", "on", "yes":
		return true, true
	case "false", "0", "off", "no":
		return false, true
	}
	return false, false
}

// want gives the record of a row, or false.
func want(h, row []string) (record, bool) {
	var r record
	for _, c := range required {
		if index(h, c) >= len(row) {
			return r, false
		}
	}
	var ok1, ok2, ok3 bool
	var c int8
	r.A, ok1 = int8Text(row[index(h, "a")])
	r.B = row[index(h, "B")]
	c, ok2 = int8Text(row[index(h, "c col")])
	r.C = based(c)
	r.D, ok3 = boolText(row[index(h, "d")])
	return r, ok1 && ok2 && ok3
}

func same(x interface{}, r record) bool {
	p, ok := x.(*record)
	return ok && p != nil && p.A == r.A && p.B == r.B && p.C == r.C && p.D == r.D && p.private == 0 && p.Skipped == nil
}

// cell gives a good cell for a column, different in every row.
func cell(col string, row int) string {
	switch col {
	case "a":
		return [...]string{"1", "-2", "127"}[row]
	case "c col":
		return [...]string{"10", "20", "-30"}[row]
	case "d":
		return [...]string{"yes", "off", "TRUE"}[row]
	}
	return col + string(rune('0'+row))
}

func number(i int) string { return string(rune('0' + i)) }

// Decode reads rows below any header.
func Decode() {
	n := nd.Param("n", 3)
	h := header(nd.Param("extra", 1))
	k := nd.Choose(3)
	data := [][]string{h}
	for i := 0; i < k; i++ {
		var row []string
		for _, c := range h {
			row = append(row, cell(c, i))
		}
		data = append(data, row)
	}
	complete := index(h, "a") >= 0 && index(h, "B") >= 0 && index(h, "c col") >= 0 && index(h, "d") >= 0
	bad := -1
	if complete {
		switch nd.Choose(4) {
		case 0:
			bad = nd.Choose(k + 2)
		case 1:
			if k > 0 {
				i := 1 + nd.Choose(k)
				data[i] = data[i][:nd.Choose(len(h)+1)]
			}
		case 2:
			if k > 0 {
				i := 1 + nd.Choose(k)
				data[i] = append(data[i], "more")
			}
		default:
			if k > 0 {
				i := 1 + nd.Choose(k)
				data[i][nd.Choose(len(h))] = nd.StrIn("0123-+yesnoTx ", nd.Choose(n+1))
			}
		}
	}
	p, err := csvcoder.NewFileParser(&rows{rows: data, bad: bad}, "file.csv", &record{})
	if !complete || bad == 0 {
		nd.Reach("bad-header")
		nd.Assert(err != nil && p == nil, "bad-header")
		return
	}
	nd.Assert(err == nil, "header")
	if nd.Choose(2) == 0 {
		for i := 1; ; i++ {
			x, err := p.Read()
			if i == bad {
				nd.Reach("unreadable")
				nd.Assert(err != nil && err != io.EOF, "unreadable")
				nd.Assert(errors.Is(err, errRow), "wrapped")
				nd.Assert(strings.HasPrefix(err.Error(), "file.csv:"+number(i+1)+":"), "row-number")
				continue
			}
			if i > k {
				nd.Assert(err == io.EOF, "end")
				return
			}
			row := data[i]
			if bad >= 0 && i > bad {
				row = data[i] // the reader has skipped the bad row
			}
			r, ok := want(h, row)
			if !ok {
				nd.Reach("bad-cell")
				nd.Assert(err != nil && err != io.EOF, "must-fail")
				nd.Assert(strings.HasPrefix(err.Error(), "file.csv:"+number(i+1)+":"), "row-number")
				continue
			}
			nd.Reach("decoded")
			nd.Assert(err == nil, "decoded")
			nd.Assert(same(x, r), "record")
		}
	}
	stop := -1
	if nd.Choose(2) == 1 {
		stop = nd.Choose(2)
	}
	i := 0
	err = p.ReadAll(func(x interface{}) error {
		i++
		nd.Assert(i <= k && i != bad, "rows")
		if i > k {
			return nil
		}
		r, ok := want(h, data[i])
		nd.Assert(ok, "must-fail")
		nd.Assert(same(x, r), "record")
		if i-1 == stop {
			return io.ErrUnexpectedEOF
		}
		return nil
	})
	if stop >= 0 && i-1 == stop {
		nd.Reach("stopped")
		nd.Assert(err == io.ErrUnexpectedEOF, "callback-error")
		return
	}
	// reading ended at the first row that is bad, or at the end
	if i < k || bad == i+1 {
		good := false
		if bad != i+1 {
			_, good = want(h, data[i+1])
		}
		nd.Assert(!good, "missed-row")
		nd.Assert(err != nil, "error-reported")
		return
	}
	nd.Reach("all")
	nd.Assert(err == nil, "all")
}

// pair has two columns of strings.
type pair struct {
	First  string `csv:"k"`
	Second string `csv:"v,w"`
}

// File reads a file through encoding/csv.
func File() {
	n := nd.Param("n", 4)
	head := [...]string{"k,\"v,w\"\n", "\"v,w\",k\n", "z,k,\"v,w\"\n"}[nd.Choose(3)]
	text := head + nd.StrIn("ab,\"\n\r", nd.Choose(n+1))
	ref := csv.NewReader(strings.NewReader(text))
	h, _ := ref.Read()
	p, err := csvcoder.NewFileParser(csv.NewReader(strings.NewReader(text)), "f", &pair{})
	nd.Assert(err == nil, "header")
	for i := 0; i <= n+1; i++ {
		row, rerr := ref.Read()
		x, err := p.Read()
		if rerr == io.EOF {
			nd.Assert(err == io.EOF, "end")
			return
		}
		if rerr != nil {
			nd.Reach("malformed")
			nd.Assert(err != nil && err != io.EOF, "malformed")
			continue
		}
		nd.Assert(err == nil, "decoded")
		got, ok := x.(*pair)
		nd.Assert(ok && got.First == row[index(h, "k")] && got.Second == row[index(h, "v,w")], "record")
		nd.Reach("decoded")
	}
	nd.Assert(false, "no-end")
}

// custom decodes itself.
type custom struct{ text string }

func (c *custom) ParseCSVRow(row *csvcoder.Row) error {
	c.text = strings.Join(row.Strings(), "|")
	if c.text == "bad" {
		return errRow
	}
	return nil
}

// Rows parses single rows.
func Rows() {
	num := nd.Choose(5) - 1
	path := [...]string{"", "f.csv"}[nd.Choose(2)]
	h := csvcoder.NewHeader([]string{"c col", "a", "B", "d"})
	nd.Assert(h.ColumnIndex("a") == 1 && h.ColumnIndex("none") == csvcoder.InvalidColumn, "column-index")
	vals := []string{nd.StrIn("0159-", nd.Choose(4)), "5", "text", "no"}
	row := csvcoder.NewRow(vals, h, csvcoder.RowNumber(num), path)
	where := ""
	if path != "" {
		where = path + ":"
	}
	if num < 0 {
		where += "<unknown row number>"
	} else {
		where += number(num + 1)
	}
	nd.Assert(row.PositionString() == where, "position")
	if nd.Choose(3) == 0 {
		c := &custom{}
		if nd.Choose(2) == 0 {
			row = csvcoder.NewRow([]string{"bad"}, h, csvcoder.RowNumber(num), path)
		}
		err := csvcoder.ParseRow(row, c)
		nd.Assert(c.text == strings.Join(row.Strings(), "|"), "own-method")
		nd.Assert((err != nil) == (c.text == "bad"), "own-error")
		nd.Assert(err == nil || errors.Is(err, errRow) && strings.HasPrefix(err.Error(), where+":"), "own-error-text")
		return
	}
	type unknown struct{ A int8 }
	nd.Assert(csvcoder.ParseRow(row, &unknown{}) != nil, "unregistered")
	csvcoder.RegisterRowStruct(typeOf(&record{}))
	nd.Assert(csvcoder.SafeRegisterRowStruct(typeOf(record{})) != nil, "no-pointer")
	nd.Assert(csvcoder.SafeRegisterRowStruct(typeOf(&struct{ C chan int }{})) != nil, "no-decoder")
	var r record
	r.private = 3
	err := csvcoder.ParseRow(row, &r)
	c, ok := int8Text(vals[0])
	if !ok {
		nd.Reach("rejected")
		nd.Assert(err != nil && strings.HasPrefix(err.Error(), where+":"), "must-fail")
		return
	}
	nd.Reach("parsed")
	nd.Assert(err == nil, "parsed")
	nd.Assert(r.A == 5 && r.B == "text" && r.C == based(c) && !r.D && r.private == 3, "record")
	var cellValue based
	err = csvcoder.ParseCell(csvcoder.NewCellContext(row), vals[0], &cellValue)
	nd.Assert(err == nil && cellValue == based(c), "cell")
}

// labels has columns whose names are close to each other.
type labels struct {
	A string `csv:"a"`
	B string
	E string `csv:""`
	L string `csv:" a"`
	T string `csv:"a "`
	O string `csv:"a" csv-skip:""`
}

// Headers reads a row below a header in which one name is any text.
func Headers() {
	names := []string{"a", "B", "", " a", "a "}
	h := append([]string{}, names...)
	s := nd.StrIn("aAbB ,\t\xef", nd.Choose(nd.Param("n", 2)+1))
	at := nd.Choose(len(h) + 2)
	switch {
	case at < len(h):
		h[at] = s
	case at == len(h):
		h = append(h, s)
	default:
		h = append([]string{s}, h...)
	}
	same := 0
	for _, c := range h {
		if c == s {
			same++
		}
	}
	nd.Assume(same == 1) // what two columns of one name mean is left open
	data := [][]string{h, nil}
	for i := range h {
		data[1] = append(data[1], "cell"+number(i))
	}
	if nd.Choose(2) == 0 {
		data = data[:1]
	}
	p, err := csvcoder.NewFileParser(&rows{rows: data, bad: -1}, "f", &labels{})
	for _, c := range names {
		if index(h, c) < 0 {
			nd.Assert(err != nil, "missing-column")
			nd.Reach("missing")
			return
		}
	}
	nd.Assert(err == nil, "header")
	x, err := p.Read()
	if len(data) == 1 {
		nd.Assert(err == io.EOF, "end")
		return
	}
	nd.Assert(err == nil, "decoded")
	l, ok := x.(*labels)
	nd.Assert(ok, "type")
	for i, v := range []string{l.A, l.B, l.E, l.L, l.T} {
		nd.Assert(v == data[1][index(h, names[i])], "cell-of-column")
	}
	nd.Assert(l.O == "", "skipped")
	nd.Reach("decoded")
}

// failing is a cell that is decoded by its method, with an error chosen by the text.
type failing struct{ text string }

func (f *failing) UnmarshalText(b []byte) error {
	f.text = string(b)
	switch f.text {
	case "eof":
		return io.EOF
	case "wrapped":
		return wrapped{io.EOF}
	case "other":
		return errRow
	}
	return nil
}

type wrapped struct{ err error }

func (w wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w wrapped) Unwrap() error { return w.err }

// failer is a reader whose rows end with an error.
type failer struct {
	rows
	err error
}

func (f *failer) Read() ([]string, error) {
	r, err := f.rows.Read()
	if err == errRow {
		err = f.err
	}
	return r, err
}

type texts struct {
	K string
	F failing
}

// Failures: a reader or a cell fails with any kind of error at any row; it is never taken for the end of the file.
func Failures() {
	k := nd.Param("rows", 3)
	data := [][]string{{"F", "K"}}
	at := nd.Choose(k) + 1
	what := nd.Choose(5)
	r := &failer{rows: rows{bad: -1}, err: wrapped{io.EOF}}
	for i := 1; i <= k; i++ {
		f := "good"
		if i == at && what < 3 {
			f = [...]string{"eof", "wrapped", "other"}[what]
		}
		data = append(data, []string{f, number(i)})
	}
	if what >= 3 {
		r.bad = at
	}
	if what == 4 {
		r.err = io.ErrUnexpectedEOF
	}
	r.rows.rows = data
	p, err := csvcoder.NewFileParser(r, "f", &texts{})
	nd.Assert(err == nil, "header")
	got := 0
	err = p.ReadAll(func(x interface{}) error {
		t, ok := x.(*texts)
		got++
		nd.Assert(ok && t.F.text == "good" && t.K == number(got), "record")
		return nil
	})
	nd.Assert(got == at-1, "rows-before")
	nd.Assert(err != nil, "error-reported")
	nd.Reach("failed")
}
