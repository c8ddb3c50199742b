package main

// A model of package reflect: a reflect.Type is an interface of *reflect.rtype that holds the engine's type,
// a reflect.Value an opaque struct that holds a type and a value or the cell of an addressable one.

import (
	"go/types"
	"sync"
)

type RV struct {
	t    types.Type
	v    V
	addr *V
	ro   bool // reached through an unexported field
}

func (r *RV) get() V {
	if r.addr != nil {
		return copyV(*r.addr)
	}
	return r.v
}

var rtypeOnce sync.Once
var rtypePtr *RT

func (w *worker) rtypeRT() *RT {
	rtypeOnce.Do(func() {
		p := w.eng.prog.ImportedPackage("reflect")
		if p == nil {
			for _, q := range w.eng.prog.AllPackages() {
				if q.Pkg.Path() == "reflect" {
					p = q
				}
			}
		}
		rtypePtr = rtOf(types.NewPointer(p.Type("rtype").Type()))
	})
	return rtypePtr
}

func (w *worker) typeV(t types.Type) V {
	if t == nil {
		return V{}
	}
	return V{p: &Iface{w.rtypeRT(), V{p: rtOf(t)}}}
}

// typeArg gives the type that a reflect.Type denotes.
func (w *worker) typeArg(v V) types.Type {
	i, ok := v.p.(*Iface)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	r, ok := i.v.p.(*RT)
	if !ok {
		w.unsupported("reflect.Type of %s", i.t)
	}
	return r.T
}

func (w *worker) strPanic(s string) {
	w.needImpure()
	panic(targetPanic{v: V{p: &Iface{rtOf(types.Typ[types.String]), vStr(s)}}, where: w.where()})
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (w *worker) rvArg(v V, m string) *RV {
	r, ok := v.p.(*RV)
	if !ok {
		w.strPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
	return r
}

// assignTo converts a value for assignment to a variable of another type.
func (w *worker) assignTo(r *RV, t types.Type, ctx string) V {
	if !types.AssignableTo(r.t, t) {
		w.strPanic(ctx + ": value of type " + typeStr(r.t) + " is not assignable to type " + typeStr(t))
	}
	v := r.get()
	if isIface(t) && !isIface(r.t) {
		return V{p: &Iface{rtOf(r.t), v}}
	}
	return v
}

func (w *worker) exported(r *RV, m string) {
	if r.ro {
		w.strPanic("reflect.Value." + m + ": cannot return value obtained from unexported field or method")
	}
}

func (w *worker) structFieldV(s *types.Struct, i int) V {
	f := s.Field(i)
	path := ""
	if !f.Exported() && f.Pkg() != nil {
		path = f.Pkg().Path()
	}
	return V{p: &Agg{f: []V{vStr(f.Name()), vStr(path), w.typeV(f.Type()), vStr(s.Tag(i)), {}, {p: []V{vInt(i)}}, vBool(f.Embedded())}}}
}

func init() {
	rt := func(name string, f func(w *worker, t types.Type, a []V) V) {
		reg("(*reflect.rtype)."+name, func(w *worker, a []V) V {
			r, ok := a[0].p.(*RT)
			if !ok {
				w.unsupported("reflect.Type")
			}
			return f(w, r.T, a[1:])
		})
	}
	val := func(name string, f func(w *worker, r *RV, a []V) V) {
		reg("(reflect.Value)."+name, func(w *worker, a []V) V { return f(w, w.rvArg(a[0], name), a[1:]) })
	}
	typeOf := func(w *worker, a []V) V {
		if i, ok := a[0].p.(*Iface); ok {
			return w.typeV(i.t.T)
		}
		return V{}
	}
	reg("reflect.TypeOf", typeOf)
	reg("reflect.ValueOf", func(w *worker, a []V) V {
		if i, ok := a[0].p.(*Iface); ok {
			return V{p: &RV{t: i.t.T, v: i.v}}
		}
		return V{}
	})
	ptrTo := func(w *worker, a []V) V { return w.typeV(types.NewPointer(w.typeArg(a[0]))) }
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.New", func(w *worker, a []V) V {
		t := w.typeArg(a[0])
		c := new(V)
		*c = zero(t)
		return V{p: &RV{t: types.NewPointer(t), v: V{p: c}}}
	})
	reg("reflect.Zero", func(w *worker, a []V) V {
		t := w.typeArg(a[0])
		return V{p: &RV{t: t, v: zero(t)}}
	})

	rt("Kind", func(w *worker, t types.Type, a []V) V { return V{n: kindOf(t)} })
	rt("String", func(w *worker, t types.Type, a []V) V { return vStr(typeStr(t)) })
	rt("Name", func(w *worker, t types.Type, a []V) V {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return vStr(n.Obj().Name())
		case *types.Basic:
			return vStr(n.Name())
		}
		return V{}
	})
	rt("PkgPath", func(w *worker, t types.Type, a []V) V {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return vStr(n.Obj().Pkg().Path())
		}
		return V{}
	})
	rt("Elem", func(w *worker, t types.Type, a []V) V {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return w.typeV(e.Elem())
		}
		w.strPanic("reflect: Elem of invalid type " + typeStr(t))
		return V{}
	})
	rt("Key", func(w *worker, t types.Type, a []V) V { return w.typeV(t.Underlying().(*types.Map).Key()) })
	rt("Implements", func(w *worker, t types.Type, a []V) V {
		i, ok := w.typeArg(a[0]).Underlying().(*types.Interface)
		if !ok {
			w.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return vBool(types.Implements(t, i))
	})
	rt("AssignableTo", func(w *worker, t types.Type, a []V) V { return vBool(types.AssignableTo(t, w.typeArg(a[0]))) })
	rt("ConvertibleTo", func(w *worker, t types.Type, a []V) V { return vBool(types.ConvertibleTo(t, w.typeArg(a[0]))) })
	rt("Comparable", func(w *worker, t types.Type, a []V) V { return vBool(types.Comparable(t)) })
	sig := func(w *worker, t types.Type, m string) *types.Signature {
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			w.strPanic("reflect: " + m + " of non-func type " + typeStr(t))
		}
		return s
	}
	rt("NumIn", func(w *worker, t types.Type, a []V) V { return vInt(sig(w, t, "NumIn").Params().Len()) })
	rt("NumOut", func(w *worker, t types.Type, a []V) V { return vInt(sig(w, t, "NumOut").Results().Len()) })
	rt("IsVariadic", func(w *worker, t types.Type, a []V) V { return vBool(sig(w, t, "IsVariadic").Variadic()) })
	rt("In", func(w *worker, t types.Type, a []V) V {
		p := sig(w, t, "In").Params()
		i := w.concInt(a[0])
		if i < 0 || i >= p.Len() {
			w.rtPanic("index out of range")
		}
		return w.typeV(p.At(i).Type())
	})
	rt("Out", func(w *worker, t types.Type, a []V) V {
		p := sig(w, t, "Out").Results()
		i := w.concInt(a[0])
		if i < 0 || i >= p.Len() {
			w.rtPanic("index out of range")
		}
		return w.typeV(p.At(i).Type())
	})
	str := func(w *worker, t types.Type, m string) *types.Struct {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			w.strPanic("reflect: " + m + " of non-struct type " + typeStr(t))
		}
		return s
	}
	rt("NumField", func(w *worker, t types.Type, a []V) V { return vInt(str(w, t, "NumField").NumFields()) })
	rt("NumMethod", func(w *worker, t types.Type, a []V) V {
		n := 0
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return vInt(n)
	})
	field := func(w *worker, t types.Type, idx V) V {
		s := str(w, t, "Field")
		i := w.concInt(idx)
		if i < 0 || i >= s.NumFields() {
			w.strPanic("reflect: Field index out of bounds")
		}
		return w.structFieldV(s, i)
	}
	rt("Field", func(w *worker, t types.Type, a []V) V { return field(w, t, a[0]) })
	rt("FieldByIndex", func(w *worker, t types.Type, a []V) V {
		ix, _ := a[0].p.([]V)
		if len(ix) != 1 {
			w.unsupported("FieldByIndex of depth %d", len(ix))
		}
		return field(w, t, ix[0])
	})
	rt("FieldByName", func(w *worker, t types.Type, a []V) V {
		s := str(w, t, "FieldByName")
		n := mustStr(w, a[0])
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return tup(w.structFieldV(s, i), vBool(true))
			}
		}
		return tup(V{p: &Agg{f: make([]V, 7)}}, V{})
	})

	reg("(reflect.Value).IsValid", func(w *worker, a []V) V { return vBool(a[0].p != nil) })
	reg("(reflect.Value).Kind", func(w *worker, a []V) V {
		if r, ok := a[0].p.(*RV); ok {
			return V{n: kindOf(r.t)}
		}
		return V{}
	})
	val("Type", func(w *worker, r *RV, a []V) V { return w.typeV(r.t) })
	val("Interface", func(w *worker, r *RV, a []V) V {
		w.exported(r, "Interface")
		v := r.get()
		if isIface(r.t) {
			return v
		}
		return V{p: &Iface{rtOf(r.t), v}}
	})
	val("CanInterface", func(w *worker, r *RV, a []V) V { return vBool(!r.ro) })
	val("CanAddr", func(w *worker, r *RV, a []V) V { return vBool(r.addr != nil) })
	val("CanSet", func(w *worker, r *RV, a []V) V { return vBool(r.addr != nil && !r.ro) })
	val("Elem", func(w *worker, r *RV, a []V) V {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			switch c := r.get().p.(type) {
			case nil:
				return V{}
			case *V:
				return V{p: &RV{t: u.Elem(), addr: c, ro: r.ro}}
			}
			w.unsupported("reflect Elem of an opaque pointer")
		case *types.Interface:
			if i, ok := r.get().p.(*Iface); ok {
				return V{p: &RV{t: i.t.T, v: i.v}}
			}
			return V{}
		}
		w.strPanic("reflect: call of reflect.Value.Elem on " + typeStr(r.t) + " Value")
		return V{}
	})
	val("Addr", func(w *worker, r *RV, a []V) V {
		if r.addr == nil {
			w.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return V{p: &RV{t: types.NewPointer(r.t), v: V{p: r.addr}, ro: r.ro}}
	})
	val("Set", func(w *worker, r *RV, a []V) V {
		if r.addr == nil {
			w.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := w.rvArg(a[0], "Set")
		w.exported(r, "Set")
		w.exported(x, "Set")
		w.store(V{p: r.addr}, w.assignTo(x, r.t, "reflect.Set"))
		return V{}
	})
	set := func(name string, ok func(t types.Type) bool) {
		val(name, func(w *worker, r *RV, a []V) V {
			if r.addr == nil || !ok(r.t) {
				w.strPanic("reflect: call of reflect.Value." + name + " on " + typeStr(r.t) + " Value")
			}
			v := a[0]
			if isInt(r.t) && widthOf(r.t) < 64 {
				if v.p != nil {
					w.unsupported("reflect %s of a narrow type", name)
				}
				v.n &= mask(widthOf(r.t))
			}
			w.store(V{p: r.addr}, v)
			return V{}
		})
	}
	set("SetString", isString)
	set("SetBool", isBool)
	set("SetInt", isInt)
	set("SetUint", isInt)
	fieldOf := func(w *worker, r *RV, idx V) V {
		s := str(w, r.t, "Field")
		i := w.concInt(idx)
		if i < 0 || i >= s.NumFields() {
			w.strPanic("reflect: Field index out of range")
		}
		f := s.Field(i)
		ro := r.ro || !f.Exported()
		if r.addr != nil {
			return V{p: &RV{t: f.Type(), addr: &r.addr.p.(*Agg).f[i], ro: ro}}
		}
		return V{p: &RV{t: f.Type(), v: r.v.p.(*Agg).f[i], ro: ro}}
	}
	val("Field", func(w *worker, r *RV, a []V) V { return fieldOf(w, r, a[0]) })
	val("FieldByIndex", func(w *worker, r *RV, a []V) V {
		ix, _ := a[0].p.([]V)
		if len(ix) != 1 {
			w.unsupported("FieldByIndex of depth %d", len(ix))
		}
		return fieldOf(w, r, ix[0])
	})
	val("NumField", func(w *worker, r *RV, a []V) V { return vInt(str(w, r.t, "NumField").NumFields()) })
	val("IsNil", func(w *worker, r *RV, a []V) V {
		switch r.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
			return vBool(r.get().p == nil)
		}
		w.strPanic("reflect: call of reflect.Value.IsNil on " + typeStr(r.t) + " Value")
		return V{}
	})
	val("Bool", func(w *worker, r *RV, a []V) V { return r.get() })
	val("Int", func(w *worker, r *RV, a []V) V {
		v := r.get()
		if wd := widthOf(r.t); wd < 64 {
			return vTerm(tSExt(v.term(wd), 64))
		}
		return v
	})
	val("Uint", func(w *worker, r *RV, a []V) V {
		v := r.get()
		if wd := widthOf(r.t); wd < 64 {
			return vTerm(tZExt(v.term(wd), 64))
		}
		return v
	})
	val("Float", func(w *worker, r *RV, a []V) V {
		if !isFloat(r.t) {
			w.strPanic("reflect: call of reflect.Value.Float on " + typeStr(r.t) + " Value")
		}
		return r.get()
	})
	val("String", func(w *worker, r *RV, a []V) V {
		if isString(r.t) {
			return r.get()
		}
		return vStr("<" + typeStr(r.t) + " Value>")
	})
	val("Len", func(w *worker, r *RV, a []V) V {
		v := r.get()
		switch x := v.p.(type) {
		case nil:
			return V{}
		case []V:
			return vInt(len(x))
		case *Map:
			return vInt(x.count)
		case string, *SStr:
			return vInt(strLen(v))
		}
		w.unsupported("reflect Len of %T", v.p)
		return V{}
	})
	val("Index", func(w *worker, r *RV, a []V) V {
		s, ok := r.get().p.([]V)
		i := w.concInt(a[0])
		if !ok || i < 0 || i >= len(s) {
			w.strPanic("reflect: slice index out of range")
		}
		return V{p: &RV{t: r.t.Underlying().(*types.Slice).Elem(), addr: &s[i]}}
	})
	val("Convert", func(w *worker, r *RV, a []V) V {
		t := w.typeArg(a[0])
		v := r.get()
		switch {
		case types.Identical(r.t.Underlying(), t.Underlying()):
			return V{p: &RV{t: t, v: v}}
		case isIface(t) && !isIface(r.t) && types.AssignableTo(r.t, t):
			return V{p: &RV{t: t, v: V{p: &Iface{rtOf(r.t), v}}}}
		case isInt(r.t) && isInt(t):
			ws, wd := widthOf(r.t), widthOf(t)
			switch {
			case wd < ws:
				return V{p: &RV{t: t, v: vTerm(tExtract(v.term(ws), 0, wd))}}
			case wd == ws:
				return V{p: &RV{t: t, v: v}}
			case isSigned(r.t):
				return V{p: &RV{t: t, v: vTerm(tSExt(v.term(ws), wd))}}
			default:
				return V{p: &RV{t: t, v: vTerm(tZExt(v.term(ws), wd))}}
			}
		}
		if !types.ConvertibleTo(r.t, t) {
			w.strPanic("reflect.Value.Convert: value of type " + typeStr(r.t) + " cannot be converted to type " + typeStr(t))
		}
		w.unsupported("reflect conversion of %s to %s", r.t, t)
		return V{}
	})
	val("Call", func(w *worker, r *RV, a []V) V {
		w.needImpure()
		w.exported(r, "Call")
		s := sig(w, r.t, "Call")
		in, _ := a[0].p.([]V)
		if s.Variadic() {
			w.unsupported("reflect call of a variadic function")
		}
		f := r.get()
		if f.p == nil {
			w.strPanic("reflect: call of nil function")
		}
		if len(in) != s.Params().Len() {
			w.strPanic("reflect: Call with a wrong number of input arguments")
		}
		args := make([]V, len(in))
		for i := range in {
			x, ok := in[i].p.(*RV)
			if !ok {
				w.strPanic("reflect: Call using zero Value argument")
			}
			pt := s.Params().At(i).Type()
			if !types.AssignableTo(x.t, pt) {
				w.strPanic("reflect: Call using " + typeStr(x.t) + " as type " + typeStr(pt))
			}
			args[i] = w.assignTo(x, pt, "reflect.Call")
		}
		ret := w.callV(f, args, nil)
		n := s.Results().Len()
		out := make([]V, n)
		for i := range out {
			v := ret
			if n > 1 {
				v = ret.p.(Tuple)[i]
			}
			out[i] = V{p: &RV{t: s.Results().At(i).Type(), v: v}}
		}
		return V{p: out}
	})
}

func init() {
	rt := func(name string, f func(w *worker, t types.Type, a []V) V) {
		reg("(*reflect.rtype)."+name, func(w *worker, a []V) V { return f(w, a[0].p.(*RT).T, a[1:]) })
	}
	// a Method is {Name, PkgPath string, Type Type, Func Value, Index int}
	rt("MethodByName", func(w *worker, t types.Type, a []V) V {
		n := mustStr(w, a[0])
		none := tup(V{p: &Agg{f: make([]V, 5)}}, V{})
		ms := types.NewMethodSet(t)
		k := 0
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			if !f.Exported() {
				continue
			}
			if f.Name() != n {
				k++
				continue
			}
			s := f.Type().(*types.Signature)
			if isIface(t) {
				return tup(V{p: &Agg{f: []V{vStr(n), {}, w.typeV(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())), {}, vInt(k)}}}, vBool(true))
			}
			ps := []*types.Var{types.NewVar(0, nil, "", t)}
			for j := 0; j < s.Params().Len(); j++ {
				ps = append(ps, s.Params().At(j))
			}
			mt := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic())
			fn := V{p: &Closure{fn: w.methodByName(rtOf(t), n)}}
			return tup(V{p: &Agg{f: []V{vStr(n), {}, w.typeV(mt), {p: &RV{t: mt, v: fn}}, vInt(k)}}}, vBool(true))
		}
		return none
	})
	reg("reflect.SliceOf", func(w *worker, a []V) V { return w.typeV(types.NewSlice(w.typeArg(a[0]))) })
	reg("reflect.MakeSlice", func(w *worker, a []V) V {
		t := w.typeArg(a[0])
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			w.strPanic("reflect.MakeSlice of non-slice type")
		}
		n, c := w.concInt(a[1]), w.concInt(a[2])
		switch {
		case n < 0:
			w.strPanic("reflect.MakeSlice: negative len")
		case c < 0:
			w.strPanic("reflect.MakeSlice: negative cap")
		case n > c:
			w.strPanic("reflect.MakeSlice: len > cap")
		}
		l := make([]V, c)
		for i := range l {
			l[i] = zero(st.Elem())
		}
		return V{p: &RV{t: t, v: V{p: l[:n]}}}
	})
	// values here have no cycles, for which go-cmp keeps the pointers on the path
	reg("(github.com/google/go-cmp/cmp.pointerPath).Push", func(w *worker, a []V) V { return tup(V{}, V{}) })
	reg("(github.com/google/go-cmp/cmp.pointerPath).Pop", func(w *worker, a []V) V { return V{} })
	// go-cmp now and then calls a function twice, from another goroutine, to see that it is deterministic
	reg("(*github.com/google/go-cmp/cmp.dynChecker).Next", func(w *worker, a []V) V { return V{} })
}
