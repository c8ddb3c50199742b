// Package protoreflectcmp checks the comparison of lists of protocol buffers with slices (P29).
package protoreflectcmp

import (
	"github.com/google/go-cmp/cmp"
	"github.com/google/xtoproto/internal/protoreflectcmp"
	"github.com/google/xtoproto/zz_verif/nd"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// list is a list of protocol buffer values.
type list struct {
	protoreflect.List
	elems []protoreflect.Value
	zero  protoreflect.Value
	valid bool
}

func (l *list) Len() int                       { return len(l.elems) }
func (l *list) Get(i int) protoreflect.Value   { return l.elems[i] }
func (l *list) NewElement() protoreflect.Value { return l.zero }
func (l *list) IsValid() bool                  { return l.valid }

// a and b are messages of two types.
type a struct{ x int32 }

type b struct{ x int32 }

type reflected struct {
	protoreflect.Message
	m    proto.Message
	name protoreflect.FullName
}

type descriptor struct {
	protoreflect.MessageDescriptor
	name protoreflect.FullName
}

func (r *reflected) Interface() proto.Message                   { return r.m }
func (r *reflected) Descriptor() protoreflect.MessageDescriptor { return &descriptor{name: r.name} }
func (d *descriptor) FullName() protoreflect.FullName           { return d.name }
func (m *a) ProtoReflect() protoreflect.Message                 { return &reflected{m: m, name: "p.A"} }
func (m *b) ProtoReflect() protoreflect.Message                 { return &reflected{m: m, name: "p.B"} }
func (m *a) Equal(o *a) bool                                    { return m.x == o.x }
func (m *b) Equal(o *b) bool                                    { return m.x == o.x }

// side is one side of a comparison.
type side struct {
	kind    int // of the elements
	generic bool
	isList  bool
	elems   []uint64
	x       interface{}
}

const kinds = 13

// choose chooses a side: of one of the kinds, or of any.
func choose(max int, ks ...int) side {
	k := 0
	if len(ks) > 0 {
		k = ks[nd.Choose(len(ks))]
	} else {
		k = nd.Choose(kinds)
	}
	s := side{kind: k, isList: nd.Choose(2) == 0}
	n := nd.Choose(max + 1)
	for i := 0; i < n; i++ {
		if s.kind >= 11 {
			s.elems = append(s.elems, uint64(nd.Choose(2)))
			continue
		}
		s.elems = append(s.elems, uint64(nd.Byte()))
	}
	if s.isList {
		l := &list{valid: n > 0 || nd.Choose(2) == 0, zero: value(s.kind, 0)}
		for _, e := range s.elems {
			l.elems = append(l.elems, value(s.kind, e))
		}
		s.x = l
		if !l.valid {
			nd.Reach("invalid-list")
		}
		return s
	}
	if messages(s.kind) && nd.Choose(2) == 1 {
		s.generic = true
		var l []proto.Message
		for _, e := range s.elems {
			l = append(l, message(s.kind, e))
		}
		s.x = l
		return s
	}
	s.x = slice(s.kind, s.elems)
	return s
}

// messages reports whether the elements are messages.
func messages(kind int) bool { return kind == 9 || kind == 10 }

func message(kind int, e uint64) proto.Message {
	if kind == 9 {
		return &a{int32(e)}
	}
	return &b{int32(e)}
}

func value(kind int, e uint64) protoreflect.Value {
	switch kind {
	case 0:
		return protoreflect.ValueOfBool(e > 127)
	case 1:
		return protoreflect.ValueOfInt32(int32(e))
	case 2:
		return protoreflect.ValueOfInt64(int64(e) << 32)
	case 3:
		return protoreflect.ValueOfUint32(uint32(e))
	case 4:
		return protoreflect.ValueOfUint64(e << 32)
	case 5:
		return protoreflect.ValueOfString(string([]byte{byte(e)}))
	case 6:
		return protoreflect.ValueOfBytes([]byte{byte(e), 1})
	case 7:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(e))
	case 8:
		return protoreflect.ValueOfString("")
	case 11:
		return protoreflect.ValueOfFloat32([]float32{0, 1.5}[e])
	case 12:
		return protoreflect.ValueOfFloat64([]float64{0, 0.1}[e])
	}
	return protoreflect.ValueOfMessage(message(kind, e).ProtoReflect())
}

func slice(kind int, es []uint64) interface{} {
	switch kind {
	case 0:
		var l []bool
		for _, e := range es {
			l = append(l, e > 127)
		}
		return l
	case 1:
		var l []int32
		for _, e := range es {
			l = append(l, int32(e))
		}
		return l
	case 2:
		var l []int64
		for _, e := range es {
			l = append(l, int64(e)<<32)
		}
		return l
	case 3:
		var l []uint32
		for _, e := range es {
			l = append(l, uint32(e))
		}
		return l
	case 4:
		var l []uint64
		for _, e := range es {
			l = append(l, e<<32)
		}
		return l
	case 5:
		var l []string
		for _, e := range es {
			l = append(l, string([]byte{byte(e)}))
		}
		return l
	case 6:
		var l [][]byte
		for _, e := range es {
			l = append(l, []byte{byte(e), 1})
		}
		return l
	case 7:
		var l []protoreflect.EnumNumber
		for _, e := range es {
			l = append(l, protoreflect.EnumNumber(e))
		}
		return l
	case 8:
		var l []string
		for range es {
			l = append(l, "")
		}
		return l
	case 9:
		var l []*a
		for _, e := range es {
			l = append(l, &a{int32(e)})
		}
		return l
	case 11:
		var l []float32
		for _, e := range es {
			l = append(l, []float32{0, 1.5}[e])
		}
		return l
	case 12:
		var l []float64
		for _, e := range es {
			l = append(l, []float64{0, 0.1}[e])
		}
		return l
	}
	var l []*b
	for _, e := range es {
		l = append(l, &b{int32(e)})
	}
	return l
}

func class(k int) int {
	if k == 8 {
		return 5
	}
	return k
}

// equal is what a comparison must find.
func equal(x, y side, ignore bool) bool {
	xm, ym := messages(x.kind), messages(y.kind)
	if !ignore || !xm || !ym {
		if class(x.kind) != class(y.kind) || x.generic != y.generic {
			return false
		}
	}
	if len(x.elems) != len(y.elems) {
		return false
	}
	if xm && x.kind != y.kind {
		return len(x.elems) == 0
	}
	eq := true
	for i := range x.elems {
		e, f := x.elems[i], y.elems[i]
		switch {
		case x.kind == 0:
			eq = nd.And(eq, nd.Iff(e > 127, f > 127))
		case x.kind == 8 && y.kind == 8:
		case x.kind == 8 || y.kind == 8:
			eq = false
		default:
			eq = nd.And(eq, e == f)
		}
	}
	return eq
}

func options() (opts []protoreflectcmp.Option, ignore bool) {
	if nd.Choose(2) == 1 {
		return []protoreflectcmp.Option{protoreflectcmp.IgnoreElementType()}, true
	}
	return nil, false
}

func compare(x, y interface{}, want bool, opts []protoreflectcmp.Option) {
	if nd.Choose(2) == 1 {
		x, y = y, x
	}
	got := cmp.Equal(x, y, protoreflectcmp.Transform(opts...))
	nd.Assert(nd.Iff(got, want), "equal-as-lists")
	if got {
		nd.Reach("equal")
	} else {
		nd.Reach("different")
	}
}

// Lists compares a list with a list or a slice, in both orders.
func Lists() {
	max := nd.Param("n", 2)
	x, y := choose(max), choose(max)
	nd.Assume(x.isList || y.isList)
	opts, ignore := options()
	compare(x.x, y.x, equal(x, y, ignore), opts)
}

type named []int32

type number int32

type holder struct{ X interface{} }

type listHolder struct{ L protoreflect.List }

// Others compares a list with values that are no lists or slices of the elements of a list.
func Others() {
	x := choose(nd.Param("n", 1))
	nd.Assume(x.isList)
	var y interface{}
	want := false
	switch nd.Choose(10) {
	case 0:
	case 1:
		y = 5
	case 2:
		y = []int16{1}
	case 3:
		y = []number{}
	case 4:
		y = ""
	case 5:
		y = map[int]int32{}
	case 6:
		y = &holder{}
	case 7:
		y = [1]int32{0}
	case 8:
		y = []interface{}{}
	case 9:
		y = named{1, 0}
	}
	opts, _ := options()
	compare(x.x, y, want, opts)
}

// Held compares lists and slices that are fields or elements of other values.
func Held() {
	max := nd.Param("n", 1)
	ks := []int{1, 5, 9, 10}
	x, y := choose(max, ks...), choose(max, ks...)
	nd.Assume(x.isList || y.isList)
	opts, ignore := options()
	want := equal(x, y, ignore)
	var vx, vy interface{}
	switch nd.Choose(4) {
	case 0:
		vx, vy = holder{x.x}, holder{y.x}
	case 1:
		vx, vy = &holder{x.x}, &holder{y.x}
	case 2:
		vx, vy = []interface{}{1, x.x}, []interface{}{1, y.x}
	default:
		nd.Assume(x.isList && y.isList)
		vx, vy = listHolder{x.x.(*list)}, listHolder{y.x.(*list)}
	}
	compare(vx, vy, want, opts)
}

// Slices compares slices, which are compared as ever.
func Slices() {
	k := nd.Choose(2)
	var x, y []int32
	for i := 0; i < k; i++ {
		x, y = append(x, int32(nd.Byte())), append(y, int32(nd.Byte()))
	}
	want := true
	for i := range x {
		want = nd.And(want, x[i] == y[i])
	}
	opts, _ := options()
	compare(x, y, want, opts)
}
