package conc

import (
	"reflect"

	"github.com/google/xtoproto/csvcoder"
	"github.com/google/xtoproto/zz_verif/nd"
	"github.com/google/xtoproto/zz_verif/vs"
)

type cell int8

type word string

type row struct {
	A cell `csv:"a"`
	B word `csv:"b"`
}

type other struct {
	B word `csv:"b"`
	C bool `csv:"c"`
}

type unknown struct{ C chan int }

// digit is the value of a text of one digit.
func digit(s string) (cell, bool) {
	return cell(s[0] - '0'), s[0] >= '0' && s[0] <= '9'
}

var hdr = csvcoder.NewHeader([]string{"a", "b", "c"})

// parse does one of the things a thread may do.
func parse(kind int, a, b string) {
	r := csvcoder.NewRow([]string{a, b, "true"}, hdr, 2, "f")
	want, ok := digit(a)
	switch kind {
	case 0:
		var c cell
		err := csvcoder.ParseCell(csvcoder.NewCellContext(r), a, &c)
		nd.Assert((err == nil) == ok && (!ok || c == want), "cell")
	case 1:
		var w word
		err := csvcoder.ParseCell(csvcoder.NewCellContext(r), b, &w)
		nd.Assert(err == nil && string(w) == b, "cell")
		nd.Reach("cell")
	case 2:
		nd.Assert(csvcoder.SafeRegisterRowStruct(reflect.TypeOf(&row{})) == nil, "registered")
		var v row
		err := csvcoder.ParseRow(r, &v)
		nd.Assert((err == nil) == ok && (!ok || v.A == want && string(v.B) == b), "row")
		if ok {
			nd.Reach("row")
		}
	case 3:
		var v unknown
		nd.Assert(csvcoder.ParseRow(r, &v) != nil, "not-registered")
		nd.Reach("not-registered")
	case 4:
		nd.Assert(csvcoder.SafeRegisterRowStruct(reflect.TypeOf(&other{})) == nil, "registered")
		var v other
		err := csvcoder.ParseRow(r, &v)
		nd.Assert(err == nil && string(v.B) == b && v.C, "row")
	default:
		nd.Assert(csvcoder.SafeRegisterRowStruct(reflect.TypeOf(&unknown{})) != nil, "no-parser")
	}
}

// Coders parses cells and rows, and registers types, from several threads.
func Coders() {
	a, b := nd.Str(1), nd.Str(1)
	nd.Assume(a[0] < 128 && b[0] < 128)
	var fs []func()
	kind := 0
	for i := 0; i < nd.Param("threads", 2); i++ {
		kind += nd.Choose(nd.Param("kinds", 6) - kind) // threads do not differ otherwise
		k := kind
		fs = append(fs, func() { parse(k, a, b) })
	}
	vs.Run(fs...)
	parse([]int{0, 2, 4}[nd.Choose(nd.Param("after", 3))], a, b)
}

// CodersThree has three threads.
func CodersThree() { Coders() }
