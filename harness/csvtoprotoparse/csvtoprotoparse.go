// Package csvtoprotoparse holds the harnesses for package csvtoprotoparse (P25).
package csvtoprotoparse

import (
	"math"
	"math/bits"
	"time"

	"github.com/google/xtoproto/csvtoprotoparse"
	"github.com/google/xtoproto/zz_verif/nd"
	"google.golang.org/protobuf/types/known/durationpb"
)

const (
	minSeconds = -62135596800 // 0001-01-01T00:00:00Z
	maxSeconds = 253402300800 // 10000-01-01T00:00:00Z
)

// Instants converts any instant.
func Instants() {
	secs := nd.Int64()
	nsec := nd.IntRange(0, 999999999)
	nd.Assume(nd.And(secs >= -1<<40, secs <= 1<<40))
	t := time.Unix(secs, int64(nsec)).UTC()
	ts, err := csvtoprotoparse.TimeToTimestamp(t)
	if nd.And(secs >= minSeconds, secs < maxSeconds) {
		nd.Reach("in-range")
		nd.Assert(err == nil, "in-range")
		nd.Assert(ts != nil, "value")
		nd.Assert(ts.Seconds == secs, "seconds")
		nd.Assert(int(ts.Nanos) == nsec, "nanos")
		return
	}
	nd.Reach("out-of-range")
	nd.Assert(err != nil, "out-of-range")
	nd.Assert(ts == nil, "no-value")
}

// Durations converts any duration.
func Durations() {
	d := nd.Int64()
	p, err := csvtoprotoparse.DurationToDurationProto(time.Duration(d))
	nd.Assert(err == nil, "converts")
	nd.Assert(p != nil, "value")
	n := int64(p.Nanos)
	nd.Assert(nd.And(n > -1000000000, n < 1000000000), "nanos-range")
	nd.Assert(nd.Or(p.Seconds == 0, nd.Or(n == 0, (p.Seconds < 0) == (n < 0))), "signs")
	nd.Assert(p.Seconds*1000000000+n == d, "length")
	nd.Assert(nd.And(p.Seconds >= -9223372037, p.Seconds <= 9223372037), "seconds-range")
	nd.Reach("converted")
}

// NearSeconds converts durations next to a whole number of seconds.
func NearSeconds() {
	near := [...]int64{0, 1, 59, 86400, 9007198, 9007199254, 4611686018, 9223372036}
	k := near[nd.Choose(len(near))]
	delta := int64(nd.IntRange(-2, 2))
	d := k*1000000000 + delta
	if nd.Choose(2) == 1 {
		d = -d
	}
	p, err := csvtoprotoparse.DurationToDurationProto(time.Duration(d))
	nd.Assert(err == nil, "converts")
	n := int64(p.Nanos)
	nd.Assert(nd.And(n > -1000000000, n < 1000000000), "nanos-range")
	nd.Assert(nd.Or(p.Seconds == 0, nd.Or(n == 0, (p.Seconds < 0) == (n < 0))), "signs")
	nd.Assert(p.Seconds*1000000000+n == d, "length")
	nd.Reach("converted")
}

var units = []struct {
	name string
	ns   uint64
}{{"ns", 1}, {"us", 1000}, {"µs", 1000}, {"ms", 1000000}, {"s", 1000000000}, {"m", 60000000000}, {"h", 3600000000000}}

// number reads decimal digits; over tells that the value exceeds 64 bits.
func number(s string) (v uint64, ok, over bool) {
	ok = len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, nd.And(s[i] >= '0', s[i] <= '9'))
		hi, lo := bits.Mul64(v, 10)
		d := uint64(s[i] - '0')
		over = nd.Or(over, nd.Or(hi != 0, lo+d < lo))
		v = lo + d
	}
	return v, ok, over
}

// judge compares the outcome of a conversion with the length v*ns, negated if neg.
func judge(p *durationpb.Duration, err error, v, ns uint64, neg, over bool) {
	hi, lo := bits.Mul64(v, ns)
	lim := uint64(1)<<63 - 1
	if neg {
		lim = 1 << 63
	}
	if nd.Or(over, nd.Or(hi != 0, lo > lim)) {
		nd.Reach("too-long")
		nd.Assert(err != nil, "too-long")
		return
	}
	nd.Assert(err == nil, "fits")
	if err != nil {
		return
	}
	nd.Reach("parsed")
	want := int64(lo)
	if neg {
		want = -want
	}
	n := int64(p.Nanos)
	nd.Assert(p.Seconds*1000000000+n == want, "length")
	nd.Assert(nd.And(n > -1000000000, n < 1000000000), "nanos-range")
}

// DurationTexts parses whole numbers of a unit, given apart or in the text.
func DurationTexts() {
	n := nd.Param("n", 2)
	pre := [...]string{"", "1234567", "922337203685477580", "2562047788015"}[nd.Choose(4)]
	s := pre + nd.StrIn("0123456789", n)
	u := units[nd.Choose(len(units))]
	sign := [...]string{"", "-", "+"}[nd.Choose(3)]
	var p *durationpb.Duration
	var err error
	if nd.Choose(2) == 0 {
		p, err = csvtoprotoparse.ParseDuration(sign+s, u.name)
	} else {
		p, err = csvtoprotoparse.ParseDuration(sign+s+u.name, "")
	}
	v, _, over := number(s)
	judge(p, err, v, u.ns, sign == "-", over)
}

// DurationJunk parses any short text with a unit.
func DurationJunk() {
	n := nd.Param("n", 3)
	s := nd.StrIn("05-+ hmsx", nd.Choose(n+1))
	u := units[nd.Choose(len(units))]
	p, err := csvtoprotoparse.ParseDuration(s, u.name)
	body, neg := s, false
	if len(body) > 0 && (body[0] == '-' || body[0] == '+') {
		neg = body[0] == '-'
		body = body[1:]
	}
	v, ok, over := number(body)
	if ok {
		judge(p, err, v, u.ns, neg, over)
		return
	}
	if err != nil {
		nd.Reach("rejected")
		nd.Assert(p == nil, "no-value")
		return
	}
	// several components, such as 5h5 and the unit
	digit, unit := false, false
	for i := 0; i < len(body); i++ {
		digit = nd.Or(digit, nd.And(body[i] >= '0', body[i] <= '9'))
		unit = nd.Or(unit, nd.Or(body[i] == 'h', nd.Or(body[i] == 'm', body[i] == 's')))
	}
	nd.Assert(nd.And(digit, unit), "components")
	nd.Reach("components")
}

// Fractions parses decimal fractions of a unit.
func Fractions() {
	ip := nd.Choose(3)
	k := nd.Choose(3) + 1
	frac := 0
	text := ""
	for i := 0; i < k; i++ {
		d := nd.Choose(10)
		frac = frac*10 + d
		text += string(rune('0' + d))
	}
	u := units[3+nd.Choose(len(units)-3)]
	neg := nd.Choose(2) == 1
	s := string(rune('0'+ip)) + "." + text
	if neg {
		s = "-" + s
	}
	p, err := csvtoprotoparse.ParseDuration(s, u.name)
	scale := []uint64{1, 10, 100, 1000}[k]
	judge(p, err, uint64(ip)*scale+uint64(frac), u.ns/scale, neg, false)
}

func signed(s string) (v int64, ok bool, over bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	u, ok, over := number(s)
	lim := uint64(1)<<63 - 1
	if neg {
		lim = 1 << 63
	}
	over = nd.Or(over, u > lim)
	if neg {
		return -int64(u), ok, over
	}
	return int64(u), ok, over
}

// Ints parses integers.
func Ints() {
	n := nd.Param("n", 3)
	s := [...]string{"", "-", "+"}[nd.Choose(3)] + [...]string{"", "21474836", "92233720368547758", "100000000000000000000"}[nd.Choose(4)] + nd.StrIn("0123456789-_ x", n)
	v, ok, over := signed(s)
	a, err := csvtoprotoparse.ParseInt64(s)
	if nd.And(ok, nd.Not(over)) {
		nd.Reach("int64")
		nd.Assert(err == nil, "int64")
		nd.Assert(a == v, "int64-value")
	} else {
		nd.Reach("no-int64")
		nd.Assert(err != nil, "no-int64")
	}
	b, err := csvtoprotoparse.ParseInt32(s)
	if nd.And(nd.And(ok, nd.Not(over)), nd.And(v >= -1<<31, v <= 1<<31-1)) {
		nd.Reach("int32")
		nd.Assert(err == nil, "int32")
		nd.Assert(int64(b) == v, "int32-value")
	} else {
		nd.Reach("no-int32")
		nd.Assert(err != nil, "no-int32")
	}
}

// Timestamps parses times of day and dates in RFC 3339 and in a layout without zone.
func Timestamps() {
	d := func() int { return int(nd.StrIn("0123456789", 1)[0] - '0') }
	dig := func(x int) string { return string([]byte{byte('0' + x)}) }
	which := nd.Choose(3)
	hour, min, sec, day := 11, 12, 13, 14
	two := func(on bool, v int) (string, int) {
		if !on {
			return dig(v/10) + dig(v%10), v
		}
		a, b := d(), d()
		return dig(a) + dig(b), a*10 + b
	}
	var sh, sm, ss, sd string
	sh, hour = two(which == 0, hour)
	sm, min = two(which == 1, min)
	ss, sec = two(which == 1, sec)
	sd, day = two(which == 2, day)
	year := [...]string{"0000", "0001", "1899", "1970", "2020", "9999"}[nd.Choose(6)]
	y := int(year[0]-'0')*1000 + int(year[1]-'0')*100 + int(year[2]-'0')*10 + int(year[3]-'0')
	var off, zone int
	text, layout, tz := "", "", ""
	switch nd.Choose(3) {
	case 0:
		text, layout = year+"-02-"+sd+" "+sh+":"+sm+":"+ss, "2006-01-02 15:04:05"
	case 1:
		text, layout, tz = year+"-02-"+sd+" "+sh+":"+sm+":"+ss, "2006-01-02 15:04:05", "UTC"
	default:
		zone = nd.Choose(2)
		off = [...]int{9*3600 + 1800, -8 * 3600}[zone]
		text, layout = year+"-02-"+sd+"T"+sh+":"+sm+":"+ss+[...]string{"+09:30", "-08:00"}[zone], time.RFC3339
	}
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	last := 28
	if leap {
		last = 29
	}
	ts, err := csvtoprotoparse.ParseTimestamp(text, layout, tz)
	ok := nd.And(nd.And(hour <= 23, nd.And(min <= 59, sec <= 59)), nd.And(day >= 1, day <= last))
	want := time.Date(y, 2, 1, 0, 0, 0, 0, time.UTC).Unix() + int64((day-1)*86400+hour*3600+min*60+sec) - int64(off)
	if nd.And(ok, nd.And(want >= minSeconds, want < maxSeconds)) {
		nd.Reach("time")
		nd.Assert(err == nil, "time")
		nd.Assert(ts.Seconds == want, "instant")
		nd.Assert(ts.Nanos == 0, "nanos")
		return
	}
	nd.Reach("no-time")
	nd.Assert(err != nil, "no-time")
	nd.Assert(ts == nil, "no-value")
}

// Zones parses a time of day on any day of a year in a zone whose offset changes.
func Zones() {
	type span struct {
		month, day int // the local day of the change
		off        int // the offset after it
	}
	zones := [...]struct {
		name   string
		year   int
		first  int // the offset at the start of the year
		change []span
	}{
		{"America/New_York", 2020, -5 * 3600, []span{{3, 8, -4 * 3600}, {11, 1, -5 * 3600}}},
		{"Europe/Berlin", 2019, 3600, []span{{3, 31, 7200}, {10, 27, 3600}}},
		{"Asia/Kolkata", 2021, 19800, nil},
		{"Australia/Sydney", 2018, 11 * 3600, []span{{4, 1, 10 * 3600}, {10, 7, 11 * 3600}}},
	}
	z := zones[nd.Choose(len(zones))]
	month := nd.Choose(12) + 1
	t := nd.StrIn("0123456789", 2)
	hour := int(t[0]-'0')*10 + int(t[1]-'0')
	day := [...]int{2, 9, 15, 28}[nd.Choose(4)]
	off := z.first
	for _, c := range z.change {
		if c.month == month && c.day == day {
			return
		}
		if month > c.month || month == c.month && day > c.day {
			off = c.off
		}
	}
	dig := func(x int) string { return string([]byte{byte('0' + x/10), byte('0' + x%10)}) }
	text := dig(z.year/100) + dig(z.year%100) + "-" + dig(month) + "-" + dig(day) + " " + t + ":30"
	ts, err := csvtoprotoparse.ParseTimestamp(text, "2006-01-02 15:04", z.name)
	if hour > 23 {
		nd.Assert(err != nil, "no-time")
		nd.Reach("no-time")
		return
	}
	nd.Assert(err == nil, "time")
	if err != nil {
		return
	}
	want := time.Date(z.year, time.Month(month), day, 0, 30, 0, 0, time.UTC).Unix() + int64(hour*3600) - int64(off)
	nd.Assert(ts.Seconds == want, "instant")
	nd.Assert(ts.Nanos == 0, "nanos")
	nd.Reach("time")
}

// Floats parses decimal numbers around the limits and the ties of the two formats.
func Floats() {
	k := nd.Choose(10)
	d := "0123456789"[k : k+1]
	sign := [...]string{"", "-", "+"}[nd.Choose(3)]
	var s string
	var want32, want64 uint64 // the bits of the magnitude
	ok32, ok64, is := true, true, true
	switch nd.Choose(9) {
	case 0: // next to the greatest float32, whose upper neighbour would be 3.4028236692e38
		s = "3.402823" + d + "e38"
		ok32, is = k <= 5, k == 4
		want32, want64 = 0x7f7fffff, 0
		if is {
			want32 = 0x7f7ffffd // 3.4028234e38 is nearest to the third greatest
			is = false
		}
	case 1:
		s = d + "e39"
		ok32, is = k == 0, k == 0
	case 2: // just above the tie between 1 and its upper neighbour in float32
		s = "1.00000005960464477539062500000000" + d
		want32, want64 = 0x3f800000, 0x3ff0000010000000
		if k > 0 {
			want32++
		}
	case 3: // just above the tie between 1 and its upper neighbour in float64
		s = "1.0000000000000001110223024625156540423631668090820312500" + d
		want32, want64 = 0x3f800000, 0x3ff0000000000000
		if k > 0 {
			want64++
		}
	case 4:
		s = d + "e309"
		ok32, ok64, is = k == 0, k == 0, k == 0
	case 5:
		s = "1.797693134862315" + d + "e308"
		ok32, is = false, false
		ok64 = k <= 8
	case 6: // integers
		s = "1677721" + d
		want64 = 0x4170000000000000 + uint64(k-6)*(1<<29)
		want32 = 0x4b800000 + uint64(k-6)/2
		if k < 6 {
			want64 = 0x4170000000000000 - uint64(6-k)*(1<<28)*2
			want64 = 0x416fffffe0000000 - uint64(5-k)*(1<<29)
			want32 = 0x4b7fffff - uint64(5-k)
		}
		is = k <= 6
	case 7:
		s = [...]string{"", " ", "x", "1x", "0x", "1e", "--1", "1 ", "e1", "1,5"}[k]
		ok32, ok64 = false, false
	default:
		s = d + ".5"
		is = false
	}
	f, err := csvtoprotoparse.ParseFloat(sign + s)
	if !ok32 {
		nd.Reach("no-float")
		nd.Assert(err != nil, "no-float")
	} else {
		nd.Reach("float")
		nd.Assert(err == nil, "float")
		if is {
			if sign == "-" {
				want32 |= 1 << 31
			}
			nd.Assert(uint64(math.Float32bits(f)) == want32, "float-value")
		}
	}
	g, err := csvtoprotoparse.ParseDouble(sign + s)
	if !ok64 {
		nd.Assert(err != nil, "no-double")
		return
	}
	nd.Assert(err == nil, "double")
	if is {
		if sign == "-" {
			want64 |= 1 << 63
		}
		nd.Assert(math.Float64bits(g) == want64, "double-value")
	}
	if s == d+".5" {
		w := float64(2*k+1) / 2
		if sign == "-" {
			w = -w
		}
		nd.Assert(nd.And(g == w, f == float32(w)), "half")
	}
}
