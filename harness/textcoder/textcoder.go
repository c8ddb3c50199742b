// Package textcoder holds the harnesses for package textcoder (P18, P19).
package textcoder

import (
	"errors"
	"reflect"
	"strconv"

	"github.com/google/xtoproto/textcoder"
	"github.com/google/xtoproto/zz_verif/nd"
)

type (
	myInt    int
	myInt8   int8
	myInt16  int16
	myInt32  int32
	myInt64  int64
	myUint   uint
	myUint8  uint8
	myUint16 uint16
	myUint32 uint32
	myUint64 uint64
	myBool   bool
	myString string
	myFloat  float64
)

// trip encodes a value and decodes the text into dst.
func trip(v, dst interface{}) string {
	text, err := textcoder.Marshal(v)
	nd.Assert(err == nil, "encoded")
	nd.Assert(textcoder.Unmarshal(text, dst) == nil, "decoded")
	return text
}

// Small encodes and decodes every value of the narrow types.
func Small() {
	switch nd.Choose(8) {
	case 0:
		v, d := nd.Int8(), int8(nd.Int8())
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 1:
		v, d := myInt8(nd.Int8()), myInt8(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 2:
		v, d := nd.Byte(), byte(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 3:
		v, d := myUint8(nd.Byte()), myUint8(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 4:
		v, d := nd.Bool(), nd.Bool()
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 5:
		v, d := myBool(nd.Bool()), myBool(nd.Bool())
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 6:
		v, d := nd.Str(nd.Choose(5)), "before"
		nd.Assert(trip(v, &d) == v, "plain")
		nd.Assert(d == v, "same")
	default:
		v, d := myString(nd.Str(nd.Choose(5))), myString("before")
		nd.Assert(trip(v, &d) == string(v), "plain")
		nd.Assert(d == v, "same")
	}
	nd.Reach("same")
}

// Middle does so for the 16-bit types and, at the ends and the middle of their range, for the 32-bit types.
func Middle() {
	wide := func() uint32 {
		return [...]uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 999999999, 100000}[nd.Choose(6)] ^ nd.Uint32()&(1<<uint(nd.Param("bits", 16))-1)
	}
	switch nd.Choose(8) {
	case 0:
		v, d := nd.Int16(), int16(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 1:
		v, d := myInt16(nd.Int16()), myInt16(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 2:
		v, d := nd.Uint16(), uint16(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 3:
		v, d := myUint16(nd.Uint16()), myUint16(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 4:
		v, d := int32(wide()), int32(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 5:
		v, d := myInt32(wide()), myInt32(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 6:
		v, d := wide(), uint32(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	default:
		v, d := myUint32(wide()), myUint32(7)
		trip(v, &d)
		nd.Assert(d == v, "same")
	}
	nd.Reach("same")
}

// Large does so for the 64-bit types, at the ends and the middle of their range.
func Large() {
	bits := uint(nd.Param("bits", 16))
	base := [...]uint64{0, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 32, 9999999999, 1 << 31}[nd.Choose(7)]
	u := base ^ nd.Uint64()&(1<<bits-1)
	switch nd.Choose(8) {
	case 0:
		v, d := int(u), 1
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 1:
		v, d := myInt(u), myInt(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 2:
		v, d := int64(u), int64(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 3:
		v, d := myInt64(u), myInt64(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 4:
		v, d := uint(u), uint(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 5:
		v, d := myUint(u), myUint(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	case 6:
		v, d := u, uint64(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	default:
		v, d := myUint64(u), myUint64(1)
		trip(v, &d)
		nd.Assert(d == v, "same")
	}
	nd.Reach("same")
}

// number reads a decimal number: its magnitude and sign.
func number(s string, signed bool) (mag uint64, neg, ok bool) {
	if signed && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
		c := uint64(s[i] - '0')
		if mag > (1<<64-1-c)/10 {
			return 0, false, false
		}
		mag = mag*10 + c
	}
	return mag, neg, true
}

// expect tells what a text denotes in a type of the given width.
func expect(s string, bits uint, signed bool) (uint64, bool) {
	mag, neg, ok := number(s, signed)
	if !ok {
		return 0, false
	}
	max := uint64(1)<<bits - 1
	if bits == 64 {
		max = 1<<64 - 1
	}
	if signed {
		max >>= 1
	}
	if neg {
		return -mag, mag <= max+1
	}
	return mag, mag <= max
}

// decode decodes a text into a variable of one of the types, whose value is before, and gives the value after.
func decode(kind int, s string, before uint64) (uint64, error) {
	switch kind {
	case 0:
		d := int8(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 1:
		d := myInt8(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 2:
		d := uint8(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 3:
		d := myUint8(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 4:
		d := int16(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 5:
		d := uint16(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 6:
		d := int32(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 7:
		d := uint32(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 8:
		d := int64(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 9:
		d := before
		err := textcoder.Unmarshal(s, &d)
		return d, err
	case 10:
		d := int(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 11:
		d := uint(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	case 12:
		d := myInt(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	default:
		d := myInt32(before)
		err := textcoder.Unmarshal(s, &d)
		return uint64(d), err
	}
}

var widths = []uint{8, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64, 64, 32}
var signed = []bool{true, true, false, false, true, false, true, false, true, false, true, false, true, true}

func judge(kind int, s string) {
	before := uint64(1)
	got, err := decode(kind, s, before)
	want, ok := expect(s, widths[kind], signed[kind])
	if !ok {
		nd.Reach("rejected")
		nd.Assert(err != nil, "must-fail")
		nd.Assert(got == before, "unchanged")
		return
	}
	nd.Reach("decoded")
	nd.Assert(err == nil, "must-succeed")
	nd.Assert(got == want, "value")
}

// Texts decodes any text.
func Texts() {
	n := nd.Param("n", 4)
	judge(nd.Choose(len(widths)), nd.Str(nd.Choose(n+1)))
}

var edges = []string{"12", "25", "3276", "-3276", "6553", "214748364", "-214748364", "429496729", "922337203685477580", "-922337203685477580", "1844674407370955161", "000000000000000000000000", "+"}

// Edges decodes numbers at the ends of the ranges.
func Edges() {
	n := nd.Param("n", 2)
	judge(nd.Choose(len(widths)), edges[nd.Choose(len(edges))]+nd.StrIn("0123456789-", nd.Choose(n+1)))
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// Bools decodes any text as a bool.
func Bools() {
	n := nd.Param("n", 5)
	s := nd.Str(nd.Choose(n + 1))
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] < 0x80)
	}
	before := nd.Bool()
	got := before
	var err error
	if nd.Choose(2) == 0 {
		err = textcoder.Unmarshal(s, &got)
	} else {
		d := myBool(before)
		err = textcoder.Unmarshal(s, &d)
		got = bool(d)
	}
	switch l := lower(s); {
	case l == "true" || l == "1" || l == "on" || l == "yes":
		nd.Reach("true")
		nd.Assert(err == nil && got, "true")
	case l == "false" || l == "0" || l == "off" || l == "no":
		nd.Reach("false")
		nd.Assert(err == nil && !got, "false")
	default:
		nd.Assert(err != nil, "must-fail")
		nd.Assert(got == before, "unchanged")
	}
}

// Floats decodes any text as a floating-point number: what Go's parser takes is taken, for the width of the type.
func Floats() {
	n := nd.Param("n", 4)
	s := [...]string{"", "1e3", "3.4028235", "-1e30", "0x1"}[nd.Choose(5)] + nd.StrIn("0159.eEpx+-_iInNfFaA", nd.Choose(n+1))
	var err error
	var want float64
	bits := 64
	var got float64
	before := 1.5
	switch nd.Choose(3) {
	case 0:
		got = before
		err = textcoder.Unmarshal(s, &got)
	case 1:
		d := myFloat(before)
		err = textcoder.Unmarshal(s, &d)
		got = float64(d)
	default:
		d := float32(before)
		err = textcoder.Unmarshal(s, &d)
		got = float64(d)
		bits = 32
	}
	want, werr := strconv.ParseFloat(s, bits)
	nd.Assert((err == nil) == (werr == nil), "same-texts")
	if err != nil {
		nd.Reach("rejected")
		nd.Assert(got == before, "unchanged")
		return
	}
	nd.Reach("decoded")
	nd.Assert(got == want || got != got && want != want, "value")
}

// Types for the registry: with text methods of the value, of the pointer, with one of the two, and without.
type valText struct{ s string }

func (v valText) MarshalText() ([]byte, error)     { return []byte("val:" + v.s), nil }
func (v *valText) UnmarshalText(text []byte) error { v.s = "val:" + string(text); return nil }

type ptrText struct{ s string }

func (v *ptrText) MarshalText() ([]byte, error)    { return []byte("ptr:" + v.s), nil }
func (v *ptrText) UnmarshalText(text []byte) error { v.s = "ptr:" + string(text); return nil }

type decText int8

func (v *decText) UnmarshalText(text []byte) error { *v = 99; return nil }

type plain struct{ s string }
type based int8

var errCoder = errors.New("coder")

type key struct{ name string }

var types = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(based(0)), reflect.TypeOf(valText{}), reflect.TypeOf(ptrText{}), reflect.TypeOf(decText(0)), reflect.TypeOf(plain{}),
}

// coders gives coders for a type that mark what they do with an id; with a context they fail unless they get it.
func coders(t int, id int8, ctx, bad bool) (enc, dec interface{}) {
	text := "coder" + string(rune('0'+id))
	check := func(c *textcoder.Context) error {
		if v, ok := c.Value(key{"k"}); !ok || v != "v" {
			return errCoder
		}
		return nil
	}
	if bad {
		switch id {
		case 1:
			return func(int64) (string, error) { return "", nil }, func(string, *int64) error { return nil }
		case 2:
			return func(int8) string { return "" }, 5
		default:
			return nil, nil
		}
	}
	switch t {
	case 0:
		if ctx {
			return func(c *textcoder.Context, v int8) (string, error) { return text, check(c) }, func(c *textcoder.Context, s string, d *int8) error { *d = id; return check(c) }
		}
		return func(v int8) (string, error) { return text, nil }, func(s string, d *int8) error { *d = id; return nil }
	case 1:
		if ctx {
			return func(c *textcoder.Context, v based) (string, error) { return text, check(c) }, func(c *textcoder.Context, s string, d *based) error { *d = based(id); return check(c) }
		}
		return func(v based) (string, error) { return text, nil }, func(s string, d *based) error { *d = based(id); return nil }
	case 2:
		return func(v valText) (string, error) { return text, nil }, func(s string, d *valText) error { d.s = text; return nil }
	case 3:
		return func(v ptrText) (string, error) { return text, nil }, func(s string, d *ptrText) error { d.s = text; return nil }
	case 4:
		return func(v decText) (string, error) { return text, nil }, func(s string, d *decText) error { *d = decText(id); return nil }
	default:
		return func(v plain) (string, error) { return text, nil }, func(s string, d *plain) error { d.s = text; return nil }
	}
}

// Registry registers coders in any order and looks one up.
func Registry() {
	steps := nd.Param("n", 3)
	r := textcoder.NewRegistry()
	basic := nd.Choose(2) == 1
	if basic {
		nd.Assert(textcoder.RegisterBasicTypes(r) == nil, "basic-types")
	}
	var ids [6]int8
	t := nd.Choose(len(types))
	early := nd.Choose(3) == 0 // the coder is looked up before the registrations
	var enc textcoder.Encoder
	var dec textcoder.Decoder
	k := nd.Choose(steps + 1)
	for i := 0; i < k; i++ {
		if early && ids[t] != 0 && enc == nil {
			enc, dec = r.GetEncoder(types[t]), r.GetDecoder(types[t])
		}
		// registrations of a type other than the one looked up and its basis do not matter more than one
		j := [...]int{t, 0, 5}[nd.Choose(3)]
		bad := nd.Choose(4) == 0
		half := 0
		if bad {
			half = nd.Choose(4)
		}
		e, d := coders(j, int8(i+1), false, bad && half == 0)
		switch half { // one of the two is fit
		case 1:
			d = 5
		case 2:
			d = nil
		case 3:
			e = func(int64, string) (string, error) { return "", nil }
		}
		err := r.Register(types[j], e, d)
		nd.Assert((err != nil) == bad, "register")
		if !bad {
			ids[j] = int8(i + 1)
		}
	}
	if enc == nil {
		switch nd.Choose(2) {
		case 0:
			if c := r.GetCoder(types[t]); c != nil {
				enc, dec = c, c
			} else {
				enc, dec = r.GetEncoder(types[t]), r.GetDecoder(types[t])
				// no coder: one of the two may exist
				if enc != nil && dec != nil {
					nd.Assert(t == 4, "coder")
				}
			}
		default:
			enc, dec = r.GetEncoder(types[t]), r.GetDecoder(types[t])
		}
	}
	ctx := r.NewContext()
	nd.Assert(ctx.Registry() == r, "context-registry")
	// what the type itself or its basis does
	viaBasic := ids[0] != 0 || basic
	name := "coder" + string(rune('0'+ids[t]))
	baseText, baseVal := "5", int8(42)
	if ids[0] != 0 {
		baseText, baseVal = "coder"+string(rune('0'+ids[0])), ids[0]
	}
	encode := func(v interface{}) string {
		s, err := enc.EncodeText(ctx, v)
		nd.Assert(err == nil, "encoded")
		return s
	}
	decode := func(d interface{}) { nd.Assert(dec.DecodeText(ctx, "42", d) == nil, "decoded") }
	switch t {
	case 0, 1:
		if ids[t] == 0 && !viaBasic {
			nd.Reach("none")
			nd.Assert(enc == nil && dec == nil, "none")
			return
		}
		nd.Assert(enc != nil && dec != nil, "some")
		wantText, wantVal := baseText, baseVal
		if ids[t] != 0 {
			wantText, wantVal = name, ids[t]
		}
		if t == 0 {
			d := int8(0)
			decode(&d)
			nd.Assert(encode(int8(5)) == wantText && d == wantVal, "basic")
		} else {
			d := based(0)
			decode(&d)
			nd.Assert(encode(based(5)) == wantText && int8(d) == wantVal, "underlying")
			nd.Reach("underlying")
		}
	case 2, 3:
		nd.Assert(enc != nil && dec != nil, "some")
		var got, text string
		kind := "val:"
		if t == 2 {
			d := valText{}
			decode(&d)
			got, text = d.s, encode(valText{"x"})
		} else {
			kind = "ptr:"
			d := ptrText{}
			decode(&d)
			got, text = d.s, encode(ptrText{"x"})
		}
		if ids[t] != 0 {
			nd.Reach("explicit")
			nd.Assert(got == name && text == name, "explicit")
		} else {
			nd.Reach("methods")
			nd.Assert(got == kind+"42" && text == kind+"x", "methods")
		}
	case 4:
		nd.Assert(dec != nil, "some")
		d := decText(0)
		if ids[t] != 0 {
			decode(&d)
			nd.Assert(encode(decText(5)) == name && int8(d) == ids[t], "explicit")
			return
		}
		decode(&d)
		nd.Assert((enc != nil) == viaBasic, "encoder")
		if enc != nil {
			nd.Assert(encode(decText(5)) == baseText, "underlying")
		}
		// GetCoder needs both methods, so that the coder of the basis is used
		nd.Assert(d == 99 || viaBasic && int8(d) == baseVal, "decoder")
	default:
		if ids[t] == 0 {
			nd.Reach("none")
			nd.Assert(enc == nil && dec == nil, "none")
			return
		}
		d := plain{}
		decode(&d)
		nd.Assert(encode(plain{"x"}) == name && d.s == name, "explicit")
	}
}

// Contexts passes a context to coders of the default registry.
func Contexts() {
	t := nd.Choose(2)
	e, d := coders(t, 3, true, false)
	nd.Assert(textcoder.Register(types[t], e, d) == nil, "registered")
	ctx := textcoder.NewContext()
	other := nd.Choose(2) == 1
	r := textcoder.NewRegistry()
	if other {
		ctx = r.NewContext()
	}
	full := ctx.WithValue(key{"other"}, 1)
	has := nd.Choose(2) == 1
	if has {
		full = full.WithValue(key{"k"}, "v")
	}
	if nd.Choose(2) == 1 {
		full = full.WithValue(key{"last"}, 2)
		v, ok := full.Value(key{"last"})
		nd.Assert(ok && v == 2, "value")
	}
	_, ok := ctx.Value(key{"other"})
	nd.Assert(!ok, "receiver-unchanged")
	v, ok := full.Value(key{"other"})
	nd.Assert(ok && v == 1, "earlier-value")
	nd.Assert(full.Registry() == ctx.Registry() && (full.Registry() == r) == other, "registry")
	var text string
	var err error
	if t == 0 {
		text, err = textcoder.MarshalContext(full, int8(5))
	} else {
		text, err = textcoder.MarshalContext(full, based(5))
	}
	nd.Assert((err == nil) == has, "encoder-context")
	nd.Assert(!has || text == "coder3", "encoder")
	if t == 0 || nd.Choose(2) == 0 {
		var x int8
		if t == 0 {
			err = textcoder.UnmarshalContext(full, "7", &x)
			nd.Assert(x == 3, "decoder")
			nd.Assert((err == nil) == has, "decoder-context")
		}
	} else {
		var x based
		err = textcoder.UnmarshalContext(full, "7", &x)
		nd.Assert(x == 3, "decoder")
		nd.Assert((err == nil) == has, "decoder-context")
	}
	if t == 0 {
		// the coder of the underlying type gets the context as well
		var x based
		err = textcoder.UnmarshalContext(full, "7", &x)
		nd.Assert((err == nil) == has, "underlying-decoder-context")
		nd.Assert(!has || x == 3, "underlying-decoder")
		_, err = textcoder.MarshalContext(full, based(1))
		nd.Assert((err == nil) == has, "underlying-encoder-context")
	}
	nd.Reach("passed")
}

// A type based on every basic kind.
type (
	kbool bool
	kint int
	kint8 int8
	kint16 int16
	kint32 int32
	kint64 int64
	kuint uint
	kuint8 uint8
	kuint16 uint16
	kuint32 uint32
	kuint64 uint64
	kuintptr uintptr
	kfloat32 float32
	kfloat64 float64
	kcomplex64 complex64
	kcomplex128 complex128
	kstring string
)

type kindCase struct {
	basic, derived reflect.Type
	enc, dec       interface{}                                                         // coders of the basic type
	trip           func(e textcoder.Encoder, d textcoder.Decoder) (string, error) // encodes and decodes a value of the derived type
}

var kindCases = []kindCase{
	{reflect.TypeOf(bool(false)), reflect.TypeOf(kbool(false)), func(bool) (string, error) { return "bool", nil }, func(s string, d *bool) error { return kindErr(s, "bool") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kbool
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(int(0)), reflect.TypeOf(kint(0)), func(int) (string, error) { return "int", nil }, func(s string, d *int) error { return kindErr(s, "int") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kint
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(int8(0)), reflect.TypeOf(kint8(0)), func(int8) (string, error) { return "int8", nil }, func(s string, d *int8) error { return kindErr(s, "int8") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kint8
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(int16(0)), reflect.TypeOf(kint16(0)), func(int16) (string, error) { return "int16", nil }, func(s string, d *int16) error { return kindErr(s, "int16") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kint16
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(int32(0)), reflect.TypeOf(kint32(0)), func(int32) (string, error) { return "int32", nil }, func(s string, d *int32) error { return kindErr(s, "int32") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kint32
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(int64(0)), reflect.TypeOf(kint64(0)), func(int64) (string, error) { return "int64", nil }, func(s string, d *int64) error { return kindErr(s, "int64") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kint64
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uint(0)), reflect.TypeOf(kuint(0)), func(uint) (string, error) { return "uint", nil }, func(s string, d *uint) error { return kindErr(s, "uint") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuint
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uint8(0)), reflect.TypeOf(kuint8(0)), func(uint8) (string, error) { return "uint8", nil }, func(s string, d *uint8) error { return kindErr(s, "uint8") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuint8
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uint16(0)), reflect.TypeOf(kuint16(0)), func(uint16) (string, error) { return "uint16", nil }, func(s string, d *uint16) error { return kindErr(s, "uint16") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuint16
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uint32(0)), reflect.TypeOf(kuint32(0)), func(uint32) (string, error) { return "uint32", nil }, func(s string, d *uint32) error { return kindErr(s, "uint32") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuint32
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uint64(0)), reflect.TypeOf(kuint64(0)), func(uint64) (string, error) { return "uint64", nil }, func(s string, d *uint64) error { return kindErr(s, "uint64") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuint64
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(uintptr(0)), reflect.TypeOf(kuintptr(0)), func(uintptr) (string, error) { return "uintptr", nil }, func(s string, d *uintptr) error { return kindErr(s, "uintptr") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kuintptr
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(float32(0)), reflect.TypeOf(kfloat32(0)), func(float32) (string, error) { return "float32", nil }, func(s string, d *float32) error { return kindErr(s, "float32") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kfloat32
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(float64(0)), reflect.TypeOf(kfloat64(0)), func(float64) (string, error) { return "float64", nil }, func(s string, d *float64) error { return kindErr(s, "float64") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kfloat64
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(complex64(0)), reflect.TypeOf(kcomplex64(0)), func(complex64) (string, error) { return "complex64", nil }, func(s string, d *complex64) error { return kindErr(s, "complex64") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kcomplex64
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(complex128(0)), reflect.TypeOf(kcomplex128(0)), func(complex128) (string, error) { return "complex128", nil }, func(s string, d *complex128) error { return kindErr(s, "complex128") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kcomplex128
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
	{reflect.TypeOf(string("")), reflect.TypeOf(kstring("")), func(string) (string, error) { return "string", nil }, func(s string, d *string) error { return kindErr(s, "string") },
		func(e textcoder.Encoder, d textcoder.Decoder) (string, error) {
			var v kstring
			s, err := e.EncodeText(textcoder.NewContext(), v)
			if err == nil {
				err = d.DecodeText(textcoder.NewContext(), s, &v)
			}
			return s, err
		}},
}

func kindErr(got, want string) error {
	if got != want {
		return errCoder
	}
	return nil
}

// Kinds looks up types based on every basic kind among coders for two kinds.
func Kinds() {
	r := textcoder.NewRegistry()
	a, b := nd.Choose(len(kindCases)), nd.Choose(len(kindCases))
	nd.Assert(r.Register(kindCases[a].basic, kindCases[a].enc, kindCases[a].dec) == nil, "registered")
	nd.Assert(r.Register(kindCases[b].basic, kindCases[b].enc, kindCases[b].dec) == nil, "registered")
	for i, c := range kindCases {
		e, d, both := r.GetEncoder(c.derived), r.GetDecoder(c.derived), r.GetCoder(c.derived)
		if i != a && i != b {
			nd.Assert(e == nil && d == nil && both == nil, "none")
			continue
		}
		nd.Assert(e != nil && d != nil && both != nil, "some")
		s, err := c.trip(e, d)
		nd.Assert(err == nil && s == c.basic.String(), "coder-of-kind")
		s, err = c.trip(both, both)
		nd.Assert(err == nil && s == c.basic.String(), "coder-of-kind")
	}
	nd.Reach("looked-up")
}

// Derive derives contexts from contexts; each keeps its own values.
func Derive() {
	r := textcoder.NewRegistry()
	ctxs := []*textcoder.Context{textcoder.NewContext()}
	reg := textcoder.DefaultRegistry()
	if nd.Choose(2) == 1 {
		ctxs[0] = r.NewContext()
		reg = r
	}
	keys := []interface{}{"k", key{"k"}, 7}
	vals := []interface{}{nil, 1, "v"}
	models := [][3]int{{-1, -1, -1}}
	for i := nd.Param("n", 3); i > 0; i-- {
		from := nd.Choose(len(ctxs))
		k, v := nd.Choose(len(keys)), nd.Choose(len(vals))
		ctxs = append(ctxs, ctxs[from].WithValue(keys[k], vals[v]))
		m := models[from]
		m[k] = v
		models = append(models, m)
	}
	for i, c := range ctxs {
		nd.Assert(c.Registry() == reg, "registry")
		for k := range keys {
			v, ok := c.Value(keys[k])
			nd.Assert(ok == (models[i][k] >= 0), "has-value")
			nd.Assert(!ok || v == vals[models[i][k]], "value")
		}
	}
	nd.Reach("derived")
}
