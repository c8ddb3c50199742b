// Package wirepath holds the harnesses for package wirepath (P20, P21).
package wirepath

import (
	"strconv"
	"strings"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/wirepath"
	"github.com/google/xtoproto/zz_verif/nd"
)

// same tells whether two paths have the same elements, names and slots.
func same(a, b *pb.WirePath) bool {
	for a != nil && b != nil {
		if a.GetFieldName() != b.GetFieldName() {
			return false
		}
		if !sameElement(a, b) || !sameSlot(a, b) {
			return false
		}
		a, b = a.GetChild(), b.GetChild()
	}
	return a == nil && b == nil
}

func sameElement(a, b *pb.WirePath) bool {
	switch x := a.GetElement().(type) {
	case *pb.WirePath_FieldNumber:
		y, ok := b.GetElement().(*pb.WirePath_FieldNumber)
		return ok && x.FieldNumber == y.FieldNumber
	case *pb.WirePath_SpecialPath_:
		y, ok := b.GetElement().(*pb.WirePath_SpecialPath_)
		return ok && x.SpecialPath == y.SpecialPath
	}
	return b.GetElement() == nil
}

func sameSlot(a, b *pb.WirePath) bool {
	switch x := a.GetSlot().(type) {
	case *pb.WirePath_RepeatedFieldOffset:
		y, ok := b.GetSlot().(*pb.WirePath_RepeatedFieldOffset)
		return ok && x.RepeatedFieldOffset == y.RepeatedFieldOffset
	case *pb.WirePath_MapKeyString:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyString)
		return ok && x.MapKeyString == y.MapKeyString
	case *pb.WirePath_MapKeyInt32:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyInt32)
		return ok && x.MapKeyInt32 == y.MapKeyInt32
	case *pb.WirePath_MapKeyInt64:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyInt64)
		return ok && x.MapKeyInt64 == y.MapKeyInt64
	case *pb.WirePath_MapKeyUint32:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyUint32)
		return ok && x.MapKeyUint32 == y.MapKeyUint32
	case *pb.WirePath_MapKeyUint64:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyUint64)
		return ok && x.MapKeyUint64 == y.MapKeyUint64
	case *pb.WirePath_MapKeySint32:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeySint32)
		return ok && x.MapKeySint32 == y.MapKeySint32
	case *pb.WirePath_MapKeySint64:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeySint64)
		return ok && x.MapKeySint64 == y.MapKeySint64
	case *pb.WirePath_MapKeyFixed32:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyFixed32)
		return ok && x.MapKeyFixed32 == y.MapKeyFixed32
	case *pb.WirePath_MapKeyFixed64:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyFixed64)
		return ok && x.MapKeyFixed64 == y.MapKeyFixed64
	case *pb.WirePath_MapKeySfixed32:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeySfixed32)
		return ok && x.MapKeySfixed32 == y.MapKeySfixed32
	case *pb.WirePath_MapKeySfixed64:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeySfixed64)
		return ok && x.MapKeySfixed64 == y.MapKeySfixed64
	case *pb.WirePath_MapKeyBool:
		y, ok := b.GetSlot().(*pb.WirePath_MapKeyBool)
		return ok && x.MapKeyBool == y.MapKeyBool
	}
	return b.GetSlot() == nil
}

const kinds = 13

// setSlot gives p the slot of the kind, with the number or text; kind 0 is no slot.
func setSlot(p *pb.WirePath, kind int, num uint64, text string) {
	switch kind {
	case 1:
		p.Slot = &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: int64(num)}
	case 2:
		p.Slot = &pb.WirePath_MapKeyInt32{MapKeyInt32: int32(num)}
	case 3:
		p.Slot = &pb.WirePath_MapKeyInt64{MapKeyInt64: int64(num)}
	case 4:
		p.Slot = &pb.WirePath_MapKeyUint32{MapKeyUint32: uint32(num)}
	case 5:
		p.Slot = &pb.WirePath_MapKeyUint64{MapKeyUint64: num}
	case 6:
		p.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: int32(num)}
	case 7:
		p.Slot = &pb.WirePath_MapKeySint64{MapKeySint64: int64(num)}
	case 8:
		p.Slot = &pb.WirePath_MapKeyFixed32{MapKeyFixed32: uint32(num)}
	case 9:
		p.Slot = &pb.WirePath_MapKeyFixed64{MapKeyFixed64: num}
	case 10:
		p.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: int32(num)}
	case 11:
		p.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: int64(num)}
	case 12:
		p.Slot = &pb.WirePath_MapKeyBool{MapKeyBool: num != 0}
	case 13:
		p.Slot = &pb.WirePath_MapKeyString{MapKeyString: text}
	}
}

func field(n int32, name string) *pb.WirePath {
	return &pb.WirePath{Element: &pb.WirePath_FieldNumber{FieldNumber: n}, FieldName: name}
}

func self() *pb.WirePath {
	return &pb.WirePath{Element: &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}}
}

// roundTrip checks that the path prints to text that parses to it.
func roundTrip(p *pb.WirePath) string {
	path, err := wirepath.FromProto(p)
	nd.Assert(err == nil && path != nil, "from-proto")
	text := path.String()
	back, err := wirepath.ParseString(text)
	nd.Assert(err == nil, "printed-path-parses")
	nd.Assert(back != nil, "parsed-path-is-there")
	nd.Assert(same(back.Proto(), p), "same-path")
	return text
}

const letters = "abcXYZ019_"

// name is a field name of length n.
func name(n int) string {
	if n == 0 {
		return ""
	}
	s := nd.Str(n)
	for i := 0; i < n; i++ {
		b := s[i]
		ok := nd.Or(nd.And(b >= 'a', b <= 'z'), nd.And(b >= 'A', b <= 'Z'))
		if i > 0 {
			ok = nd.Or(ok, nd.Or(nd.And(b >= '0', b <= '9'), b == '_'))
		}
		nd.Assume(ok)
	}
	return s
}

// Element checks one step: any name, and numbers as field number, index or key.
func Element() {
	var p *pb.WirePath
	switch nd.Choose(3) {
	case 0:
		n := nd.Int32()
		nd.Assume(nd.And(n >= 1, n <= 1<<29-1))
		p = field(n, name(nd.Choose(2)))
		nd.Reach("number")
	case 1: // any name
		p = field(7, name(nd.Choose(nd.Param("name", 3)+1)))
		nd.Reach("name")
	case 2:
		p = field(7, "")
		kind := nd.Choose(kinds)
		num := nd.Uint64()
		if kind == 12 {
			nd.Assume(num <= 1)
		}
		setSlot(p, kind, num, "")
		nd.Reach("numeric-slot")
	}
	roundTrip(p)
}

// Key checks a step with any string as the key, first, last or followed by another.
func Key() {
	p := field(7, "")
	setSlot(p, 13, 0, nd.StrUpTo(nd.Param("len", 2)))
	switch nd.Choose(4) {
	case 1:
		p.Child = field(4, "")
	case 2:
		p.Child = field(4, "n")
		setSlot(p.Child, 13, 0, nd.StrUpTo(nd.Param("second", 1)))
		nd.Reach("two-keys")
	case 3:
		q := self()
		q.Child = p
		p = q
	}
	roundTrip(p)
	nd.Reach("string-key")
}

// Long checks paths of many steps.
func Long() {
	n := 1 + nd.Choose(nd.Param("steps", 13))
	var top, last *pb.WirePath
	numbers := 0
	for i := 0; i < n; i++ {
		var e *pb.WirePath
		if i < nd.Param("free", 3) {
			switch nd.Choose(4) {
			case 0:
				e = self()
			case 1:
				e = field(int32(nd.IntRange(1, 9)), "")
			case 2:
				e = field(int32(nd.IntRange(1, 9)), "")
				setSlot(e, 1, uint64(nd.IntRange(0, 9)), "")
			case 3:
				e = field(2, "x")
				setSlot(e, 13, 0, nd.Str(1))
			}
		} else {
			e = field(int32(i+1), "")
			numbers++
		}
		if last == nil {
			top = e
		} else {
			last.Child = e
		}
		last = e
	}
	roundTrip(top)
	if n > 11 {
		nd.Reach("long")
	}
}

// Parsing of texts -------------------------------------------------------

// A step as the text spells it.
type step struct {
	self bool
	num  int
	name string
	kind int // as in setSlot
	neg  bool
	abs  uint64
	text string
}

// scanner reads paths the plain way.
type scanner struct {
	s   string
	pos int
}

func (c *scanner) next(b byte) bool {
	if c.pos < len(c.s) && c.s[c.pos] == b {
		c.pos++
		return true
	}
	return false
}

func digit(b byte) bool { return nd.And(b >= '0', b <= '9') }

func (c *scanner) digits() (string, bool) {
	start := c.pos
	for c.pos < len(c.s) && digit(c.s[c.pos]) {
		c.pos++
	}
	return c.s[start:c.pos], c.pos > start
}

func letter(b byte) bool {
	return nd.Or(nd.And(b >= 'a', b <= 'z'), nd.And(b >= 'A', b <= 'Z'))
}

func (c *scanner) identifier() (string, bool) {
	start := c.pos
	if c.pos >= len(c.s) || !letter(c.s[c.pos]) {
		return "", false
	}
	for c.pos < len(c.s) && nd.Or(letter(c.s[c.pos]), nd.Or(digit(c.s[c.pos]), c.s[c.pos] == '_')) {
		c.pos++
	}
	return c.s[start:c.pos], true
}

func hexValue(b byte) (byte, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

// quoted reads a string literal. The octal escapes are \0 and three octal
// digits, as the package's tests have it.
func (c *scanner) quoted() (string, bool) {
	if !c.next('"') {
		return "", false
	}
	var out []byte
	for c.pos < len(c.s) {
		b := c.s[c.pos]
		c.pos++
		if b == '"' {
			return string(out), true
		}
		if b == 0 || b == '\n' {
			return "", false
		}
		if b != '\\' {
			out = append(out, b)
			continue
		}
		if c.pos >= len(c.s) {
			return "", false
		}
		b = c.s[c.pos]
		c.pos++
		switch b {
		case 'a':
			out = append(out, '\a')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'v':
			out = append(out, '\v')
		case '\\', '\'', '"':
			out = append(out, b)
		case 'x', 'X':
			if c.pos+2 > len(c.s) {
				return "", false
			}
			h, ok1 := hexValue(c.s[c.pos])
			l, ok2 := hexValue(c.s[c.pos+1])
			if !ok1 || !ok2 {
				return "", false
			}
			c.pos += 2
			out = append(out, h<<4|l)
		case '0':
			if c.pos+3 > len(c.s) {
				return "", false
			}
			v := 0
			for i := 0; i < 3; i++ {
				d := c.s[c.pos+i]
				if d < '0' || d > '7' {
					return "", false
				}
				v = v*8 + int(d-'0')
			}
			if v > 255 {
				return "", false
			}
			c.pos += 3
			out = append(out, byte(v))
		default:
			return "", false
		}
	}
	return "", false
}

// value is the number the digits spell; texts here have few digits.
func value(digits string) uint64 {
	v := uint64(0)
	for i := 0; i < len(digits); i++ {
		v = v*10 + uint64(digits[i]-'0')
	}
	return v
}

func (c *scanner) step() (step, bool) {
	var st step
	if c.next('.') {
		st.self = true
		return st, true
	}
	d, ok := c.digits()
	if !ok {
		return st, false
	}
	st.num = int(value(d))
	if c.next('(') {
		if st.name, ok = c.identifier(); !ok || !c.next(')') {
			return st, false
		}
	}
	if !c.next('[') {
		return st, true
	}
	if c.pos < len(c.s) && c.s[c.pos] == '"' {
		st.kind = 13
		if st.text, ok = c.quoted(); !ok {
			return st, false
		}
		return st, c.next(']')
	}
	st.neg = c.next('-')
	plus := !st.neg && c.next('+')
	if d, ok = c.digits(); !ok {
		return st, false
	}
	st.abs = value(d)
	if c.next(']') {
		st.kind = 1
		return st, true
	}
	if !c.next(':') {
		return st, false
	}
	t, ok := c.identifier()
	if !ok || !c.next(']') {
		return st, false
	}
	for i, n := range []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool"} {
		if strings.EqualFold(t, n) {
			st.kind = i + 2
		}
	}
	switch st.kind {
	case 0:
		return st, false
	case 4, 5, 8, 9: // unsigned
		if st.neg || plus {
			return st, false
		}
	case 12:
		if st.neg || plus || len(d) != 1 || st.abs > 1 {
			return st, false
		}
	}
	return st, true
}

// steps reads the whole text. A slash after the last step is allowed.
func steps(s string) ([]step, bool) {
	c := &scanner{s: s}
	var out []step
	for {
		st, ok := c.step()
		if !ok {
			return nil, false
		}
		out = append(out, st)
		if c.pos == len(s) {
			return out, true
		}
		if !c.next('/') {
			return nil, false
		}
		if c.pos == len(s) {
			return out, true
		}
	}
}

func build(sts []step) *pb.WirePath {
	var top, last *pb.WirePath
	for _, st := range sts {
		var e *pb.WirePath
		if st.self {
			e = self()
		} else {
			e = field(int32(st.num), st.name)
			n := st.abs
			if st.neg {
				n = -n
			}
			setSlot(e, st.kind, n, st.text)
		}
		if last == nil {
			top = e
		} else {
			last.Child = e
		}
		last = e
	}
	return top
}

// check parses the text and compares with the plain reading of it.
func check(text string) bool {
	p, err := wirepath.ParseString(text)
	if err != nil {
		return false
	}
	trimmed := strings.TrimSpace(text)
	if trimmed == "" {
		nd.Assert(p == nil, "empty-text-is-no-path")
		return true
	}
	sts, ok := steps(trimmed)
	nd.Assert(ok, "only-paths-parse")
	nd.Assert(p != nil && same(p.Proto(), build(sts)), "text-means-its-steps")
	if p != nil {
		roundTrip(p.Proto())
	}
	return true
}

// Text checks every short text.
func Text() {
	if check(nd.StrUpTo(nd.Param("len", 3))) {
		nd.Reach("parsed")
	} else {
		nd.Reach("rejected")
	}
}

// Slot checks texts with any bytes in the place of an index or key.
func Slot() {
	n := nd.Choose(nd.Param("len", 3) + 1)
	var text string
	switch nd.Choose(3) {
	case 0:
		text = "7[" + nd.Str(n) + "]"
	case 1:
		text = `7["` + nd.Str(n) + `"]`
	case 2:
		text = `7["` + nd.Str(n) + `"]/8["k"]`
	}
	if check(text) {
		nd.Reach("parsed")
	} else {
		nd.Reach("rejected")
	}
}

// Escapes checks texts with one escape of every form, with any digits, in a string key.
func Escapes() {
	text := `7["`
	if nd.Choose(2) == 1 {
		text += "z"
	}
	switch nd.Choose(4) {
	case 0:
		text += "\\0" + nd.StrIn("012345678a", 3)
	case 1:
		text += "\\x" + nd.StrIn("09afAFgG", 2)
	case 2:
		text += "\\X" + nd.StrIn("09afAFgG", 2)
	case 3:
		text += "\\" + nd.Str(1)
	}
	text += [...]string{"", "1", "\\\\"}[nd.Choose(3)] + `"]`
	if check(text) {
		nd.Reach("parsed")
	} else {
		nd.Reach("rejected")
	}
}

// Numbers checks typed map keys and field numbers at the ends of their ranges.
func Numbers() {
	types := []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "float", "index", "number"}
	t := nd.Choose(len(types))
	sign := []string{"", "-", "+"}[nd.Choose(3)]
	bases := []string{"0", "214748364", "429496729", "922337203685477580", "1844674407370955161", "1844674407370955162"}
	base := bases[nd.Choose(len(bases))]
	last := nd.IntRange(0, 9)
	lit := base + string([]byte{byte('0' + last)})
	if base == "0" {
		lit = lit[1:]
	}
	// The range of the type, as text: a literal fits when it is no longer, and
	// no larger, than the limit.
	limit := ""
	neg := sign == "-"
	signed := false
	switch types[t] {
	case "int32", "sint32", "sfixed32":
		signed, limit = true, "2147483647"
		if neg {
			limit = "2147483648"
		}
	case "int64", "sint64", "sfixed64", "index":
		signed, limit = true, "9223372036854775807"
		if neg {
			limit = "9223372036854775808"
		}
	case "uint32", "fixed32":
		limit = "4294967295"
	case "uint64", "fixed64":
		limit = "18446744073709551615"
	case "bool":
		limit = "1"
	case "number":
		limit = "2147483647"
	case "float":
		limit = ""
	}
	fits := len(lit) < len(limit) || len(lit) == len(limit) && lit <= limit
	if sign != "" && !signed {
		fits = false
	}
	text := "7[" + sign + lit + ":" + types[t] + "]"
	switch types[t] {
	case "index":
		text = "7[" + sign + lit + "]"
	case "number":
		text = sign + lit
	}
	p, err := wirepath.ParseString(text)
	nd.Assert((err == nil) == fits, "numbers-in-range-parse")
	if err != nil {
		nd.Reach("out-of-range")
		return
	}
	nd.Reach("in-range")
	roundTrip(p.Proto())
	want := uint64(0)
	if v, err := strconv.ParseUint(lit, 10, 64); err == nil {
		want = v
	}
	if neg {
		want = -want
	}
	e := field(7, "")
	switch {
	case types[t] == "number":
		e = field(int32(want), "")
	case types[t] == "index":
		setSlot(e, 1, want, "")
	default:
		setSlot(e, t+2, want, "")
	}
	nd.Assert(same(p.Proto(), e), "number-is-what-it-spells")
}
