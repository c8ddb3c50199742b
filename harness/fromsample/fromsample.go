// Package fromsample holds the harnesses for converters generated from inferred mappings (P32).
package fromsample

import (
	"io"
	"strings"
	"time"

	"github.com/google/xtoproto/zz_verif/convpb"
	"github.com/google/xtoproto/zz_verif/fromsample1"
	"github.com/google/xtoproto/zz_verif/fromsample2"
	"github.com/google/xtoproto/zz_verif/nd"
	"github.com/google/xtoproto/zz_verif/sample"
	"google.golang.org/protobuf/types/known/timestamppb"
)

const fields = "!@#$%^&*~"

func fieldOf(c byte) int { return strings.IndexByte(fields, c) }

// timeText draws a text of a shape whose fields in the set free have arbitrary digits, and its components.
func timeText(shape, free string) (string, [len(fields)]int) {
	var text []byte
	var f, n [len(fields)]int
	for i := 0; i < len(shape); i++ {
		k := fieldOf(shape[i])
		if k < 0 {
			text = append(text, shape[i])
			continue
		}
		var d byte
		switch {
		case strings.IndexByte(free, shape[i]) >= 0 && (k != 0 || n[0] == 3):
			if k == 6 || k == 0 {
				d = "0123456789"[nd.Choose(10)]
			} else {
				d = nd.StrIn("0123456789", 1)[0]
			}
		case k == 0:
			d = "2016"[n[0]]
		default:
			d = '1'
		}
		text = append(text, d)
		f[k] = f[k]*10 + int(d-'0')
		n[k]++
	}
	if n[0] == 0 {
		f[0] = 2016
	}
	return string(text), f
}

func days(y, m int) int {
	leap := nd.And(y%4 == 0, nd.Or(nd.Not(y%100 == 0), y%400 == 0))
	short := nd.Or(nd.Or(m == 4, m == 6), nd.Or(m == 9, m == 11))
	return nd.Ite(m == 2, nd.Ite(leap, 29, 28), nd.Ite(short, 30, 31))
}

// instant judges the components of a time of a shape, which is in UTC or in New York.
func instant(sh sample.Shape, f [len(fields)]int, newYork bool) (ok bool, secs int64) {
	if sh.Month != 0 {
		f[1] = sh.Month
	}
	y, mon, day, h, min, sec := f[0], f[1], f[2], f[3], f[4], f[5]
	ok = nd.And(nd.And(mon >= 1, mon <= 12), nd.And(min <= 59, sec <= 59))
	if sh.Half == 0 {
		ok = nd.And(ok, h <= 23)
	} else {
		ok = nd.And(ok, h <= 12)
		h = nd.Ite(h == 12, nd.Ite(sh.Half == 2, 12, 0), nd.Ite(sh.Half == 2, h+12, h))
	}
	ok = nd.And(ok, nd.And(day >= 1, day <= days(y, mon)))
	// offsets of a zone out of range are left to package time
	nd.Assume(nd.And(f[7] <= 23, f[8] <= 59))
	off := sh.Off * (f[7]*3600 + f[8]*60)
	mon = nd.Concretize(mon)
	if newYork && sh.Off == 0 {
		// from the second Sunday of March until the first of November; the hours of the changes are left out
		first := func(m time.Month) int { return 1 + (7-int(time.Date(y, m, 1, 0, 0, 0, 0, time.UTC).Weekday()))%7 }
		off = -5 * 3600
		switch {
		case mon > 3 && mon < 11:
			off = -4 * 3600
		case mon == 3:
			d := first(time.March) + 7
			nd.Assume(day != d)
			off = nd.Ite(day > d, -4*3600, -5*3600)
		case mon == 11:
			d := first(time.November)
			nd.Assume(day != d)
			off = nd.Ite(day < d, -4*3600, -5*3600)
		}
	}
	return ok, time.Date(y, time.Month(mon), day, h, min, sec, 0, time.UTC).Unix() - int64(off)
}

func plain(sh sample.Shape, newYork bool) int64 {
	f := [len(fields)]int{2016, 0, 0, 0, 0, 0, 0, 0, 0}
	n := 0
	for i := 0; i < len(sh.Text); i++ {
		if k := fieldOf(sh.Text[i]); k > 0 {
			f[k] = f[k]*10 + 1
		} else if k == 0 {
			n++
		}
	}
	_, secs := instant(sh, f, newYork)
	return secs
}

// stamps compares the times of a message with those of a plain row, one of which can be another one.
func stamps(got []*timestamppb.Timestamp, shapes []sample.Shape, newYork bool, at int, secs int64, hundredths int) {
	for i, sh := range shapes {
		want, frac := plain(sh, newYork), 0
		if strings.IndexByte(sh.Text, '&') >= 0 {
			frac = 11
		}
		if i == at {
			want, frac = secs, hundredths
		}
		nd.Assert(got[i] != nil && got[i].Seconds == want, "instant")
		nd.Assert(got[i] != nil && int(got[i].Nanos) == frac*10000000, "fraction")
	}
}

func first(m *convpb.All, a int64, f float32, s string) {
	nd.Assert(m.A == a, "integer")
	nd.Assert(m.F == f, "float")
	nd.Assert(m.S == s, "string")
	nd.Assert(m.E == "", "empty")
}

// Sample converts the samples.
func Sample() {
	if nd.Bool() {
		r, err := fromsample1.NewReader(strings.NewReader(sample.All()))
		nd.Assert(err == nil, "reader")
		ms, err := r.ReadAll()
		nd.Assert(err == nil && len(ms) == 2, "every-row")
		first(ms[0], 12, 1.5, "x")
		first(ms[1], -7, -3, "y,\"z")
		for _, m := range ms {
			stamps(m.Stamps(), sample.Stamps, false, -1, 0, 0)
		}
	} else {
		r, err := fromsample2.NewReader(strings.NewReader(sample.Zoned()))
		nd.Assert(err == nil, "reader")
		ms, err := r.ReadAll()
		nd.Assert(err == nil && len(ms) == 2, "every-row")
		for i, m := range ms {
			nd.Assert(m.A == int64(i+1), "integer")
			stamps(m.Stamps(), sample.Local, true, -1, 0, 0)
		}
	}
	nd.Reach("sample")
}

// Times converts a file with any digits in one of the times.
func Times() {
	free := [...]string{"!@", "@#", "$%", "^", "&", "*~"}[nd.Choose(6)]
	at := nd.Choose(len(sample.Stamps))
	sh := sample.Stamps[at]
	v, f := timeText(sh.Text, free)
	ok, secs := instant(sh, f, false)
	r, err := fromsample1.NewReader(strings.NewReader(sample.Header(sample.Heads, "t", sample.Stamps) + sample.Row(sample.Cells, sample.Stamps, at, v)))
	nd.Assert(err == nil, "reader")
	if err != nil {
		return
	}
	m, err := r.Read()
	if ok {
		nd.Assert(err == nil, "converted")
		if err == nil {
			first(m, 12, 1.5, "x")
			stamps(m.Stamps(), sample.Stamps, false, at, secs, f[6])
		}
		_, err = r.Read()
		nd.Assert(err == io.EOF, "end")
		nd.Reach("converted")
		return
	}
	nd.Reach("refused")
	nd.Assert(err != nil && err != io.EOF, "refused")
}

// Zoned converts a file with any digits in a time of the zone that was given.
func Zoned() {
	free := [...]string{"!@", "@#", "$%", "^"}[nd.Choose(4)]
	at := nd.Choose(len(sample.Local))
	sh := sample.Local[at]
	v, f := timeText(sh.Text, free)
	ok, secs := instant(sh, f, true)
	r, err := fromsample2.NewReader(strings.NewReader(sample.Header("a", "l", sample.Local) + sample.Row("5", sample.Local, at, v)))
	nd.Assert(err == nil, "reader")
	if err != nil {
		return
	}
	m, err := r.Read()
	if ok {
		nd.Assert(err == nil, "converted")
		if err == nil {
			nd.Assert(m.A == 5, "integer")
			stamps(m.Stamps(), sample.Local, true, at, secs, 0)
		}
		nd.Reach("converted")
		return
	}
	nd.Reach("refused")
	nd.Assert(err != nil && err != io.EOF, "refused")
}

// Values converts a file with another integer, float or string, which have the formats of the sample's columns.
func Values() {
	a, f, s := "12", "1.5", "x"
	wantA, wantF, wantS := int64(12), float32(1.5), "x"
	switch nd.Choose(3) {
	case 0:
		digits := nd.StrIn("0123456789", [...]int{1, 3, 9, 10, 18, 2, 5, 11, 16}[nd.Choose(nd.Param("lengths", 5))])
		sign := [...]string{"", "-"}[nd.Choose(2)]
		a, wantA = sign+digits, 0
		for i := 0; i < len(digits); i++ {
			wantA = wantA*10 + int64(digits[i]-'0')
		}
		if sign != "" {
			wantA = -wantA
		}
	case 1:
		n := 9 * nd.Choose(12)
		whole := string(rune('0'+n/10)) + string(rune('0'+n%10))
		k := nd.Choose(4)
		f = [...]string{"", "-"}[nd.Choose(2)] + whole + [...]string{"", ".25", ".5e1", "e-2"}[k]
		wantF = [...]float32{float32(n), float32(n) + 0.25, float32(n)*10 + 5, float32(n) / 100}[k]
		if f[0] == '-' {
			wantF = -wantF
		}
	default:
		wantS = nd.Str(nd.Choose(nd.Param("n", 3) + 1))
		for i := 0; i < len(wantS); i++ {
			nd.Assume(nd.And(nd.Not(wantS[i] == '"'), nd.Not(wantS[i] == '\r')))
		}
		s = "\"" + wantS + "\""
	}
	text := sample.Header(sample.Heads, "t", sample.Stamps) + sample.Row(a+","+f+","+s+",", sample.Stamps, -1, "") + sample.Row(sample.Cells, sample.Stamps, -1, "")
	r, err := fromsample1.NewReader(strings.NewReader(text))
	nd.Assert(err == nil, "reader")
	if err != nil {
		return
	}
	m, err := r.Read()
	nd.Assert(err == nil, "converted")
	if err == nil {
		first(m, wantA, wantF, wantS)
	}
	m, err = r.Read()
	nd.Assert(err == nil, "converted")
	if err == nil {
		first(m, 12, 1.5, "x")
	}
	_, err = r.Read()
	nd.Assert(err == io.EOF, "end")
	nd.Reach("converted")
}
