package wirepath

import (
	"google.golang.org/protobuf/reflect/protoreflect"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/wirepath"
	"github.com/google/xtoproto/zz_verif/nd"
)

// A message type with every form of field, in place of generated code. Misuse
// panics as it does there: no descriptor, an index outside of a list, a map key
// of another Go type.

type desc struct {
	protoreflect.MessageDescriptor
	fs *fieldList
}

func (d *desc) Fields() protoreflect.FieldDescriptors { return d.fs }
func (d *desc) FullName() protoreflect.FullName       { return "M" }

type fieldList struct {
	protoreflect.FieldDescriptors
	list []*fieldDesc
}

func (l *fieldList) ByNumber(n protoreflect.FieldNumber) protoreflect.FieldDescriptor {
	for _, f := range l.list {
		if f.num == n {
			return f
		}
	}
	return nil
}

type fieldDesc struct {
	protoreflect.FieldDescriptor
	num  protoreflect.FieldNumber
	kind protoreflect.Kind
	key  *fieldDesc
}

func (f *fieldDesc) Number() protoreflect.FieldNumber     { return f.num }
func (f *fieldDesc) Name() protoreflect.Name              { return "f" }
func (f *fieldDesc) FullName() protoreflect.FullName      { return "M.f" }
func (f *fieldDesc) Kind() protoreflect.Kind              { return f.kind }
func (f *fieldDesc) MapKey() protoreflect.FieldDescriptor { return f.key }

const (
	fScalar   = 1
	fText     = 2
	fTexts    = 3
	fMessages = 4
	fMessage  = 5
	fByInt    = 6 // map<int32, string>
	fByText   = 7 // map<string, M>
	fByBool   = 8 // map<bool, M>
	fByUint   = 9 // map<uint64, string>
	fields    = 10
)

var mDesc = func() *desc {
	d := &desc{fs: &fieldList{}}
	for n := 1; n < fields; n++ {
		f := &fieldDesc{num: protoreflect.FieldNumber(n)}
		switch n {
		case fScalar:
			f.kind = protoreflect.Int32Kind
		case fText, fTexts:
			f.kind = protoreflect.StringKind
		default:
			f.kind = protoreflect.MessageKind
		}
		switch n {
		case fByInt:
			f.key = &fieldDesc{num: 1, kind: protoreflect.Int32Kind}
		case fByText:
			f.key = &fieldDesc{num: 1, kind: protoreflect.StringKind}
		case fByBool:
			f.key = &fieldDesc{num: 1, kind: protoreflect.BoolKind}
		case fByUint:
			f.key = &fieldDesc{num: 1, kind: protoreflect.Uint64Kind}
		}
		d.fs.list = append(d.fs.list, f)
	}
	return d
}()

type msg struct {
	protoreflect.Message
	scalar int32
	text   string
	texts  *list
	msgs   *list
	child  *msg
	maps   [fields]*mapping
}

func (m *msg) ProtoReflect() protoreflect.Message         { return m }
func (m *msg) Interface() protoreflect.ProtoMessage       { return m }
func (m *msg) Descriptor() protoreflect.MessageDescriptor { return mDesc }
func (m *msg) Get(fd protoreflect.FieldDescriptor) protoreflect.Value {
	f := fd.(*fieldDesc) // no descriptor: a panic
	switch f.num {
	case fScalar:
		return protoreflect.ValueOfInt32(m.scalar)
	case fText:
		return protoreflect.ValueOfString(m.text)
	case fTexts:
		return protoreflect.ValueOfList(m.texts)
	case fMessages:
		return protoreflect.ValueOfList(m.msgs)
	case fMessage:
		if m.child == nil {
			return protoreflect.ValueOfMessage(empty)
		}
		return protoreflect.ValueOfMessage(m.child)
	}
	return protoreflect.ValueOfMap(m.maps[f.num])
}

type list struct {
	protoreflect.List
	vals []protoreflect.Value
	zero protoreflect.Value
}

func (l *list) Len() int                       { return len(l.vals) }
func (l *list) Get(i int) protoreflect.Value   { return l.vals[i] }
func (l *list) NewElement() protoreflect.Value { return l.zero }

type mapping struct {
	protoreflect.Map
	like interface{} // a key of the right type
	keys []interface{}
	vals []protoreflect.Value
	zero protoreflect.Value
}

func (m *mapping) NewValue() protoreflect.Value { return m.zero }
func (m *mapping) Len() int                     { return len(m.vals) }
func (m *mapping) Get(k protoreflect.MapKey) protoreflect.Value {
	i := m.find(k.Interface())
	if i < 0 {
		return protoreflect.Value{}
	}
	return m.vals[i]
}

func (m *mapping) find(key interface{}) int {
	switch m.like.(type) {
	case int32:
		k := key.(int32)
		for i := range m.keys {
			if m.keys[i].(int32) == k {
				return i
			}
		}
	case string:
		k := key.(string)
		for i := range m.keys {
			if m.keys[i].(string) == k {
				return i
			}
		}
	case bool:
		k := key.(bool)
		for i := range m.keys {
			if m.keys[i].(bool) == k {
				return i
			}
		}
	case uint64:
		k := key.(uint64)
		for i := range m.keys {
			if m.keys[i].(uint64) == k {
				return i
			}
		}
	}
	return -1
}

func text(s string) protoreflect.Value  { return protoreflect.ValueOfString(s) }
func message(m *msg) protoreflect.Value { return protoreflect.ValueOfMessage(m) }

// bare is a message without contents.
func bare(id int32) *msg {
	m := &msg{scalar: id, text: "text", texts: &list{zero: text("")}, msgs: &list{}}
	m.maps[fByInt] = &mapping{like: int32(0), zero: text("")}
	m.maps[fByText] = &mapping{like: ""}
	m.maps[fByBool] = &mapping{like: false}
	m.maps[fByUint] = &mapping{like: uint64(0), zero: text("")}
	z := message(m) // for the empty message
	if empty != nil {
		z = message(empty)
	}
	m.msgs.zero, m.maps[fByText].zero, m.maps[fByBool].zero = z, z, z
	return m
}

// empty stands for messages that are not set.
var empty *msg

func init() {
	empty = bare(0)
	empty.text = ""
}

// sample makes a message with contents: some lists and maps have entries, whose
// keys are arbitrary.
func sample(id int32, deep bool, n int) *msg {
	m := bare(id)
	sub := func(k int32) *msg {
		if deep {
			return sample(id*10+k, false, n)
		}
		return bare(id*10 + k)
	}
	if !deep || nd.Choose(2) == 1 {
		m.child = sub(1)
	}
	texts := []string{"zero", "one", "two", "three"}
	for i := 0; i < n; i++ {
		m.texts.vals = append(m.texts.vals, text(texts[i]))
		m.msgs.vals = append(m.msgs.vals, message(sub(int32(i+2))))
	}
	k1, k2 := nd.Int32(), nd.Int32()
	nd.Assume(k1 != k2)
	m.maps[fByInt].keys, m.maps[fByInt].vals = []interface{}{k1, k2}, []protoreflect.Value{text("first"), text("second")}
	b := nd.Bool()
	m.maps[fByBool].keys, m.maps[fByBool].vals = []interface{}{b}, []protoreflect.Value{message(sub(6))}
	s := nd.Str(1)
	m.maps[fByText].keys, m.maps[fByText].vals = []interface{}{s, s + "x"}, []protoreflect.Value{message(sub(7)), message(sub(8))}
	u := nd.Uint64()
	m.maps[fByUint].keys, m.maps[fByUint].vals = []interface{}{u}, []protoreflect.Value{text("u")}
	return m
}

// The outcome of following a path.
const (
	found  = iota
	absent // the last step is a key the map does not have
	wrong
)

// A part of a message: exactly one of the fields says which.
type place struct {
	num  *int32
	text *string
	list *list
	m    *msg
	mp   *mapping
	key  protoreflect.Kind // of mp
}

func placeOf(v protoreflect.Value) place {
	switch x := v.Interface().(type) {
	case int32:
		return place{num: &x}
	case string:
		return place{text: &x}
	case *msg:
		return place{m: x}
	}
	panic("no such element")
}

// follow takes the steps of the path one by one, the plain way.
func follow(p *pb.WirePath, m *msg) (place, int) {
	var at place
	for {
		// the field
		self := false
		n := 0
		switch e := p.GetElement().(type) {
		case nil:
			self = true
		case *pb.WirePath_SpecialPath_:
			self = e.SpecialPath == pb.WirePath_SELF
		case *pb.WirePath_FieldNumber:
			n = int(e.FieldNumber)
		}
		switch {
		case self:
			at = place{m: m}
		case n == fScalar:
			at = place{num: &m.scalar}
		case n == fText:
			at = place{text: &m.text}
		case n == fTexts:
			at = place{list: m.texts}
		case n == fMessages:
			at = place{list: m.msgs}
		case n == fMessage && m.child == nil:
			at = place{m: empty}
		case n == fMessage:
			at = place{m: m.child}
		case n == fByInt:
			at = place{mp: m.maps[fByInt], key: protoreflect.Int32Kind}
		case n == fByText:
			at = place{mp: m.maps[fByText], key: protoreflect.StringKind}
		case n == fByBool:
			at = place{mp: m.maps[fByBool], key: protoreflect.BoolKind}
		case n == fByUint:
			at = place{mp: m.maps[fByUint], key: protoreflect.Uint64Kind}
		default:
			return at, wrong
		}
		// the slot
		missing := false
		if s := p.GetSlot(); s != nil {
			if o, ok := s.(*pb.WirePath_RepeatedFieldOffset); ok {
				i := o.RepeatedFieldOffset
				if at.list == nil || i < 0 || i >= int64(len(at.list.vals)) {
					return at, wrong
				}
				at = placeOf(at.list.vals[int(i)])
			} else {
				if at.mp == nil {
					return at, wrong
				}
				var key interface{}
				switch s := s.(type) {
				case *pb.WirePath_MapKeyInt32:
					if at.key == protoreflect.Int32Kind {
						key = s.MapKeyInt32
					}
				case *pb.WirePath_MapKeyString:
					if at.key == protoreflect.StringKind {
						key = s.MapKeyString
					}
				case *pb.WirePath_MapKeyBool:
					if at.key == protoreflect.BoolKind {
						key = s.MapKeyBool
					}
				case *pb.WirePath_MapKeyUint64:
					if at.key == protoreflect.Uint64Kind {
						key = s.MapKeyUint64
					}
				}
				if key == nil {
					return at, wrong
				}
				i := at.mp.find(key)
				if i < 0 {
					missing = true
				} else {
					at = placeOf(at.mp.vals[i])
				}
			}
		}
		p = p.GetChild()
		switch {
		case p == nil && missing:
			return at, absent
		case p == nil:
			return at, found
		case missing || at.m == nil:
			return at, wrong
		}
		m = at.m
	}
}

// read follows the path with the package and compares.
func read(p *pb.WirePath, m *msg) {
	path, err := wirepath.FromProto(p)
	nd.Assert(err == nil, "from-proto")
	want, outcome := follow(p, m)
	v, err := wirepath.GetValue(path, m)
	if outcome == wrong {
		nd.Assert(err != nil, "a-wrong-step-is-an-error")
		nd.Reach("wrong")
		return
	}
	nd.Assert(err == nil, "a-right-path-is-no-error")
	if err != nil {
		return
	}
	if outcome == absent {
		nd.Assert(!v.IsValid(), "nothing-for-an-absent-key")
		nd.Reach("absent")
		return
	}
	nd.Reach("found")
	switch x := v.Interface().(type) {
	case int32:
		nd.Assert(want.num != nil && *want.num == x, "the-number-there")
	case string:
		nd.Assert(want.text != nil && *want.text == x, "the-text-there")
	case *msg:
		nd.Assert(want.m == x, "the-message-there")
	case *list:
		nd.Assert(want.list == x, "the-list-there")
	case *mapping:
		nd.Assert(want.mp == x, "the-map-there")
	default:
		nd.Assert(false, "a-value-is-there")
	}
}

// number is a small number or one that narrow types cut.
func number() uint64 {
	n := uint64(int64(nd.IntRange(-1, 3)))
	if nd.Choose(2) == 1 {
		n += 1 << 32
	}
	return n
}

// slot gives p any slot; its number and text are arbitrary.
func slot(p *pb.WirePath) {
	kind := nd.Choose(kinds + 1)
	if kind == 0 {
		return
	}
	num := uint64(0)
	txt := ""
	if kind == 13 {
		txt = nd.StrUpTo(2)
	} else {
		num = number()
	}
	setSlot(p, kind, num, txt)
}

// anyStep is a step with any field and any slot.
func anyStep() *pb.WirePath {
	var p *pb.WirePath
	switch nd.Choose(4) {
	case 0:
		p = self()
	case 1:
		p = &pb.WirePath{}
	case 2:
		p = field(int32(1+nd.Choose(fields-1)), "")
	case 3:
		n := nd.IntRange(-1, 2)
		if n > 0 {
			n += fields - 1
		}
		if nd.Choose(2) == 1 {
			n += 1 << 28
		}
		p = field(int32(n), "name")
	}
	slot(p)
	return p
}

// toMessage is a step that can lead to a message.
func toMessage() *pb.WirePath {
	var p *pb.WirePath
	switch nd.Choose(5) {
	case 0:
		p = self()
	case 1:
		p = field(fMessage, "")
	case 2:
		p = field(fMessages, "")
		setSlot(p, 1, uint64(int64(nd.IntRange(-1, 3))), "")
	case 3:
		p = field(fByText, "")
		setSlot(p, 13, 0, nd.Str(1))
	case 4:
		p = field(fByBool, "x")
		n := uint64(0)
		if nd.Bool() {
			n = 1
		}
		setSlot(p, 12, n, "")
	}
	return p
}

// Read checks paths of steps steps, the last of which is arbitrary.
func Read() {
	n := nd.Param("steps", 2)
	m := sample(1, n > 1, nd.Param("elems", 2))
	var top, last *pb.WirePath
	k := nd.Choose(n) + 1
	for i := 0; i < k; i++ {
		var p *pb.WirePath
		if i == k-1 {
			p = anyStep()
		} else {
			p = toMessage()
		}
		if last == nil {
			top = p
		} else {
			last.Child = p
		}
		last = p
	}
	read(top, m)
}

// Beyond checks paths that go on after any step.
func Beyond() {
	m := sample(1, true, 1)
	p := anyStep()
	switch nd.Choose(3) {
	case 0:
		p.Child = self()
	case 1:
		p.Child = field(int32([]int{fScalar, fMessages, fByInt, 0}[nd.Choose(4)]), "")
	case 2:
		p.Child = self()
		p.Child.Child = field(fText, "")
	}
	if nd.Choose(2) == 1 {
		setSlot(p.Child, 1, 0, "")
	} else if nd.Choose(2) == 1 {
		setSlot(p.Child, 2, uint64(nd.IntRange(0, 3)), "")
	}
	read(p, m)
}

// Nothing checks the path without steps.
func Nothing() {
	m := sample(1, false, 1)
	var p *wirepath.WirePath
	if nd.Choose(2) == 1 {
		var err error
		p, err = wirepath.ParseString("")
		nd.Assert(err == nil, "empty-text-parses")
	}
	v, err := wirepath.GetValue(p, m)
	nd.Assert(err == nil, "no-steps-no-error")
	x, ok := v.Interface().(*msg)
	nd.Assert(ok && x == m, "no-steps-is-the-message")
	nd.Reach("nothing")
}
