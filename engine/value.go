package main

// Run-time values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a value.  Scalars: p==nil, n holds the bit pattern (zero-extended to 64 bits); symbolic scalars: p is *Term.
// string: p is nil (empty), string or *SStr.  pointer: p is nil, *V or an opaque native pointer.  struct/array: p is *Agg.
// slice: p is nil or []V.  map: nil or *Map.  interface: nil or *Iface.  func: nil, *Closure or *ssa.Builtin.
// tuple: Tuple.  float: n holds math.Float64bits.  complex: unsupported.
type V struct {
	n uint64
	p any
}

type Agg struct{ f []V }
type SStr struct{ b []V }
type Tuple []V
type Iface struct {
	t *RT
	v V
}
type Closure struct {
	fn  *CFn
	env []V
}

// NativeFn is a function value implemented by the engine.
type NativeFn struct {
	name string
	f    func(w *worker, args []V) V
}

type RT struct {
	T       types.Type
	id      int
	mu      sync.Mutex
	methods map[string]*ssa.Function
}

var (
	rtMu     sync.Mutex
	rtMap    typeutil.Map
	rtCache  sync.Map // types.Type -> *RT
	rtNextID int
)

func rtOf(t types.Type) *RT {
	if r, ok := rtCache.Load(t); ok {
		return r.(*RT)
	}
	t0 := t
	t = types.Unalias(t)
	rtMu.Lock()
	defer rtMu.Unlock()
	if r := rtMap.At(t); r != nil {
		rtCache.Store(t0, r)
		return r.(*RT)
	}
	rtNextID++
	r := &RT{T: t, id: rtNextID, methods: map[string]*ssa.Function{}}
	rtMap.Set(t, r)
	rtCache.Store(t0, r)
	return r
}

func (r *RT) String() string { return r.T.String() }

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// widthOf gives the bit width of an integer or bool (0) type.
func widthOf(t types.Type) uint8 {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.UnsafePointer:
			return 64
		}
	}
	return 255
}

func isScalarT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// opaque struct types are represented by native objects.
func opaqueType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "reflect":
			return n.Obj().Name() == "Value"
		}
	}
	return false
}

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueType(t) {
			return V{}
		}
		n := u.NumFields()
		a := &Agg{f: make([]V, n)}
		for i := 0; i < n; i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				a.f[i] = zero(ft)
			}
		}
		return V{p: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{f: make([]V, n)}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return V{p: a}
	}
	return V{}
}

// copyV copies aggregates deeply (struct/array nesting only).
func copyV(v V) V {
	a, ok := v.p.(*Agg)
	if !ok {
		return v
	}
	b := &Agg{f: make([]V, len(a.f))}
	for i, x := range a.f {
		if _, ok := x.p.(*Agg); ok {
			b.f[i] = copyV(x)
		} else {
			b.f[i] = x
		}
	}
	return V{p: b}
}

func vBool(b bool) V { return V{n: b2u(b)} }
func vInt(i int) V   { return V{n: uint64(i)} }
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}
func vTerm(t *Term) V {
	if t.op == OConst {
		return V{n: t.c}
	}
	return V{p: t}
}

func (v V) isSym() bool { _, ok := v.p.(*Term); return ok }

// term gives v as a term of width w.
func (v V) term(w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		if t.w != w {
			panic(fmt.Sprintf("term width %d want %d", t.w, w))
		}
		return t
	}
	return tConst(v.n, w)
}

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strAt(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v V) []V {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = V{n: uint64(s[i])}
		}
		return out
	case *SStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

// mkStr makes a string value from bytes (not retained unless symbolic; caller must not mutate).
func mkStr(b []V) V {
	for i := range b {
		if b[i].p != nil {
			return V{p: &SStr{b}}
		}
	}
	if len(b) == 0 {
		return V{}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return V{p: string(bs)}
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.p.(type) {
	case string:
		return V{p: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

func concreteStr(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strConcat(a, b V) V {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return V{p: x + y}
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]V, 0, len(ab)+len(bb))
	out = append(append(out, ab...), bb...)
	return V{p: &SStr{out}}
}

// strEqTerm gives equality of two strings as a bool term.
func strEqTerm(a, b V) *Term {
	n := strLen(a)
	if n != strLen(b) {
		return tFalse
	}
	x, ok1 := concreteStr(a)
	y, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return tBool(x == y)
	}
	r := tTrue
	for i := n - 1; i >= 0; i-- {
		r = tAnd(tEq(strAt(a, i).term(8), strAt(b, i).term(8)), r)
		if r == tFalse {
			return r
		}
	}
	return r
}

// strLtTerm: a < b lexicographically.
func strLtTerm(a, b V) *Term {
	x, ok1 := concreteStr(a)
	y, ok2 := concreteStr(b)
	if ok1 && ok2 {
		return tBool(x < y)
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := tBool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := strAt(a, i).term(8), strAt(b, i).term(8)
		r = tOr(tUlt(p, q), tAnd(tEq(p, q), r))
	}
	return r
}

// Map with insertion order.
type Map struct {
	ents  []*mapEnt
	idx   map[string]*mapEnt // concrete keys by canonical string
	nsym  int                // entries with symbolic keys
	count int
	kt    types.Type
}
type mapEnt struct {
	k, v V
	del  bool
	ck   string
	sym  bool
}

func (m *Map) live() []*mapEnt {
	out := make([]*mapEnt, 0, m.count)
	for _, e := range m.ents {
		if !e.del {
			out = append(out, e)
		}
	}
	return out
}

// canonKey gives a canonical encoding of a fully concrete comparable value.
func canonKey(v V, t types.Type, sb *strings.Builder) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concreteStr(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "%d:%s;", len(s), s)
			return true
		}
		if v.p != nil {
			if _, ok := v.p.(*Term); ok {
				return false
			}
			fmt.Fprintf(sb, "%p;", v.p)
			return true
		}
		fmt.Fprintf(sb, "%x;", v.n)
		return true
	case *types.Struct:
		a := v.p.(*Agg)
		for i := range a.f {
			if !canonKey(a.f[i], u.Field(i).Type(), sb) {
				return false
			}
		}
		return true
	case *types.Array:
		a := v.p.(*Agg)
		for i := range a.f {
			if !canonKey(a.f[i], u.Elem(), sb) {
				return false
			}
		}
		return true
	case *types.Interface:
		if v.p == nil {
			sb.WriteString("nil;")
			return true
		}
		i := v.p.(*Iface)
		fmt.Fprintf(sb, "T%d:", i.t.id)
		return canonKey(i.v, i.t.T, sb)
	default:
		if v.p == nil {
			sb.WriteString("nil;")
			return true
		}
		if r, ok := v.p.(*RT); ok {
			fmt.Fprintf(sb, "RT%d;", r.id)
			return true
		}
		fmt.Fprintf(sb, "%p;", v.p)
		return true
	}
}
